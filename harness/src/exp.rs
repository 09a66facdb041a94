use crate::eng::*;
use crate::mc::guarded;
use hexodsp::nodes::*;
use hexodsp::dsp::tracker::UIPatternModel;
use hexodsp::*;
fn t<R: std::fmt::Debug>(n: &str, f: impl FnOnce() -> R) {
    println!("{}: {:?}", n, guarded(f));
}
fn amp_out(e: &mut Eng) {
    e.m.place(0, 0, Cell::empty(NodeId::Amp(0)).out(None, None, Some(0)));
    e.m.place(0, 1, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
    e.m.sync().unwrap();
}
pub fn run(_a: &[String]) {
    if _a.iter().any(|x| x == "lang") {
        lang();
        return;
    }
    if _a.iter().any(|x| x == "scale") {
        print!("{}", crate::c22::table());
        return;
    }
    let _m = crate::mc::Mc::new("exp", crate::mc::Tier::Quick, 1, "/tmp");
    t("1 clear with active smoother", || {
        let mut e = engine(3, 3);
        amp_out(&mut e);
        e.audio(&[0.0; 64]);
        e.m.set_param(pid(NodeId::Amp(0), "inp"), SAtom::param(0.7));
        e.audio(&[0.0; 64]);
        e.m.clear();
        e.audio(&[0.0; 64]).0[0]
    });
    t("1b clear + reload", || {
        let mut e = engine(3, 3);
        amp_out(&mut e);
        e.audio(&[0.0; 64]);
        e.m.set_param(pid(NodeId::Amp(0), "inp"), SAtom::param(0.7));
        e.audio(&[0.0; 64]);
        e.m.clear();
        e.m.place(0, 1, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
        e.m.sync().unwrap();
        e.settle(20).0[0]
    });
    t("2 300 nodes", || {
        let mut e = engine(20, 20);
        for i in 0..300usize {
            e.m.place(i % 20, i / 20, Cell::empty(if i < 200 { NodeId::Amp(i as u8) } else { NodeId::Sin((i - 200) as u8) }));
        }
        e.m.place(0, 18, Cell::empty(NodeId::Test(0)).out(None, None, Some(0)));
        e.m.place(0, 19, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
        e.m.sync().unwrap();
        e.m.set_param(pid(NodeId::Test(0), "f"), SAtom::param(0.25));
        let o = e.settle(20).0[0];
        let l = guarded(|| e.m.led_value_for(&NodeId::Out(0)));
        (o, l, e.x.get_prog().prog.len())
    });
    t("3 >40 params", || {
        let mut e = engine(8, 8);
        for i in 0..50usize {
            e.m.place(i % 8, i / 8, Cell::empty(NodeId::Amp(i as u8)).out(None, None, None));
        }
        e.m.sync().unwrap();
        e.audio(&[0.0; 64]);
        for i in 0..50u8 {
            e.m.set_param(pid(NodeId::Amp(i), "inp"), SAtom::param(0.7));
        }
        e.settle(40);
        e.m.update_output_feedback();
        (0..50u8).filter(|i| (e.m.out_fb_for(&NodeId::Amp(*i), 0).unwrap() - 0.7).abs() < 0.0001).count()
    });
    t("5 has_path diamond", || {
        let mut g = NodeGraphOrdering::new();
        for i in 0..4 { g.add_node(NodeId::Amp(i)); }
        g.add_edge(NodeId::Amp(0), NodeId::Amp(1));
        g.add_edge(NodeId::Amp(0), NodeId::Amp(2));
        g.add_edge(NodeId::Amp(1), NodeId::Amp(3));
        g.add_edge(NodeId::Amp(2), NodeId::Amp(3));
        let mut v = vec![];
        (g.has_path(NodeId::Amp(0), NodeId::Sin(0)), g.has_path(NodeId::Amp(0), NodeId::Amp(3)), g.calculate_order(&mut v), v)
    });
    t("12 late midi event", || {
        let mut e = engine(3, 3);
        e.m.place(0, 0, Cell::empty(NodeId::MidiP(0)));
        e.m.sync().unwrap();
        e.x.process_graph_updates();
        let mut ew = EventWindowing::new();
        ew.feed(HxTimedEvent::note_on(10, 0, 60, 1.0));
        format!("{:?}", ew.next_event_in_range(64, 64).is_some())
    });
    t("12b inject order", || {
        let mut e = engine(3, 3);
        e.m.place(0, 0, Cell::empty(NodeId::MidiP(0)));
        e.m.sync().unwrap();
        e.m.inject_midi_event(HxMidiEvent::NoteOn { channel: 0, note: 60, vel: 1.0 });
        e.m.inject_midi_event(HxMidiEvent::NoteOn { channel: 0, note: 64, vel: 1.0 });
        e.x.process_graph_updates();
        e.x.feed_midi_events_from(|| None);
        block(&mut e.x, &[0.0; 64]);
        e.m.update_output_feedback();
        e.m.out_fb_for(&NodeId::MidiP(0), 0).unwrap() * 120.0 + 69.0
    });
    t("10 tracker recreate", || {
        let mut e = engine(3, 3);
        for round in 0..2 {
            e.m.place(0, 0, Cell::empty(NodeId::TSeq(0)).out(None, None, Some(0)));
            e.m.place(0, 1, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
            e.m.sync().unwrap();
            if round == 0 {
                let p = e.m.get_pattern_data(0).unwrap();
                let mut p = p.lock().unwrap();
                p.set_rows(4);
                p.set_col_step_type(0);
                p.set_cell_value(0, 0, 0xFFF);
            }
            e.m.check_pattern_data(0);
            let o = e.settle(4).0[10];
            println!("   round {} -> {}", round, o);
            if round == 0 {
                let r = e.m.to_repr();
                e.m.from_repr(&r).unwrap();
            }
        }
    });
    t("18 sc cycle", || {
        use hexodsp::build::*;
        let mut sc = SynthConstructor::new();
        let a = format!("{:?}", sc.upload(&amp(0).input().inp(&amp(0).output().sig())));
        let b = format!("{:?}", sc.upload(&out(0).input().ch1(&test(0).output().sig())));
        (a, b)
    });
    t("17 chain place unused instance", || {
        let mut e = engine(3, 3);
        e.m.place(0, 0, Cell::empty(NodeId::Amp(0)));
        e.m.sync().unwrap();
        let mut c = MatrixCellChain::new(CellDir::B);
        c.node_out("amp", "sig").set_norm("inp", 0.5);
        c.place(&mut e.m, 1, 0).unwrap();
        e.m.sync().unwrap();
        (e.m.get(1, 0).unwrap().node_id(), e.m.get_param(&pid(NodeId::Amp(0), "inp")), e.m.get_param(&pid(NodeId::Amp(1), "inp")))
    });
    t("8 patterns survive load", || {
        let mut e = engine(3, 3);
        e.m.place(0, 0, Cell::empty(NodeId::TSeq(0)));
        e.m.sync().unwrap();
        let empty = e.m.to_repr();
        e.m.get_pattern_data(0).unwrap().lock().unwrap().set_cell_value(0, 0, 0xFFF);
        e.m.from_repr(&empty).unwrap();
        let v = e.m.get_pattern_data(0).unwrap().lock().unwrap().get_cell_value(0, 0);
        v
    });
    t("dyn node survives clear", || {
        let mut e = engine(3, 3);
        let log: Log = Default::default();
        e.m.set_dynamic_node1x1(0, probe(&log));
        let mut r = vec![];
        for _ in 0..2 {
            e.m.place(0, 0, Cell::empty(NodeId::Rust1x1(0)));
            e.m.sync().unwrap();
            e.settle(3);
            r.push(log.lock().unwrap().calls.len());
            e.m.clear();
        }
        r
    });
    t("sample rate race", || {
        let mut e = engine(3, 3);
        e.m.place(0, 0, Cell::empty(NodeId::Sin(0)).out(None, None, Some(0)));
        e.m.place(0, 1, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
        e.m.sync().unwrap();
        e.x.set_sample_rate(88200.0);
        let a = e.audio(&[0.0; 128]).0;
        let mut e = engine(3, 3);
        e.x.set_sample_rate(88200.0);
        e.m.place(0, 0, Cell::empty(NodeId::Sin(0)).out(None, None, Some(0)));
        e.m.place(0, 1, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
        e.m.sync().unwrap();
        let b = e.audio(&[0.0; 128]).0;
        (a[10], b[10])
    });
}

fn lang() {
    use hexodsp::wblockdsp::*;
    let lib = synfx_dsp_jit::get_standard_library();
    let lang = setup_hxdsp_block_language(lib.clone());
    let mut l: Vec<_> = lang.borrow().get_type_list();
    l.sort_by(|a, b| (&a.0, &a.1).cmp(&(&b.0, &b.1)));
    for (c, n, _) in l {
        eprintln!("{} {} {:?} {:?}", c, n, lang.borrow().get_type_inputs(&n), lang.borrow().get_type_outputs(&n));
    }
    let run = |name: &str, f: &dyn Fn(&mut BlockFun)| {
        let r = guarded(|| {
            let mut bf = BlockFun::new(lang.clone());
            f(&mut bf);
            let mut comp = Block2JITCompiler::new(bf.block_language());
            let ast = comp.compile(&bf).map_err(|e| format!("{:?}", e))?;
            let ctx = synfx_dsp_jit::DSPNodeContext::new_ref();
            let jit = synfx_dsp_jit::JIT::new(lib.clone(), ctx.clone());
            let mut fun = jit.compile(synfx_dsp_jit::ASTFun::new(ast)).map_err(|e| format!("{:?}", e))?;
            fun.init(44100.0, None);
            let mut o = vec![];
            for i in 0..4 {
                o.push(fun.exec_2in_2out(0.1 + i as f64, 0.2));
            }
            ctx.borrow_mut().free();
            Ok::<_, String>(o)
        });
        eprintln!("{}: {:?}", name, r);
    };
    let p = |f: &mut BlockFun, x: i64, y: i64, t: &str, l: &str| f.instanciate_at(0, x, y, t, if l.is_empty() { None } else { Some(l.into()) }).unwrap();
    run("pi", &|f| p(f, 0, 0, "π", ""));
    run("2pi", &|f| p(f, 0, 0, "2π", ""));
    run("if", &|f| p(f, 0, 0, "if", ""));
    run("empty", &|_f| ());
    run("in1", &|f| p(f, 0, 0, "get", "in1"));
    run("unknown var", &|f| p(f, 0, 0, "get", "blub"));
    run("set var after", &|f| {
        p(f, 0, 0, "get", "blub");
        p(f, 0, 1, "get", "in1");
        p(f, 1, 1, "set", "blub");
    });
    run("set var then get below", &|f| {
        p(f, 0, 0, "get", "in1");
        p(f, 1, 0, "set", "blub");
        p(f, 0, 1, "get", "blub");
    });
    run("split -", &|f| {
        p(f, 0, 0, "get", "in1");
        p(f, 1, 0, "->2", "");
        p(f, 2, 0, "-", "");
    });
    run("split - swapped", &|f| {
        p(f, 0, 0, "get", "in1");
        p(f, 1, 0, "->2", "");
        p(f, 2, 0, "-", "");
        f.shift_port(0, 2, 0, 0, false);
    });
    run("- one input", &|f| {
        p(f, 0, 0, "get", "in1");
        p(f, 1, 0, "-", "");
    });
    run("- second input", &|f| {
        p(f, 0, 1, "get", "in1");
        p(f, 1, 0, "-", "");
    });
    run("-> alone", &|f| p(f, 0, 0, "->", ""));
    run("set alone", &|f| p(f, 0, 0, "set", "&sig1"));
    run("bad literal", &|f| p(f, 0, 0, "value", "bla"));
    run("->2 alone", &|f| p(f, 0, 0, "->2", ""));
    run("persist", &|f| {
        p(f, 0, 0, "get", "*x");
        p(f, 0, 1, "value", "1.0");
        p(f, 1, 0, "+", "");
        p(f, 2, 0, "set", "*x");
        p(f, 0, 3, "get", "*x");
    });
}
