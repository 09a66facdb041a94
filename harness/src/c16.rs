use crate::eng::*;
use crate::mc::*;
use crate::nrig::Sig;
use hexodsp::nodes::*;
use hexodsp::*;

/// the documented delay of 3.14 ms, at the fixed 44100 Hz the buffers are made for
const DELAY: usize = 138;

fn sig(inst: usize, f: usize) -> f32 {
    Sig::Smooth(inst as u32 * 3 + 1).at(f) + 2.0 * inst as f32 + 1.5
}

/// one engine with feedback writers and readers of several instances, in a given program order
struct Rig {
    nc: NodeConfigurator,
    x: NodeExecutor,
    /// what runs, in order
    order: Vec<Part>,
    logs: Vec<Log>,
    frame: std::sync::Arc<std::sync::atomic::AtomicUsize>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Part {
    W(usize),
    R(usize),
    /// a node with nothing to do, to fill positions
    Pad(usize),
}

const N: usize = 3;

impl Rig {
    fn new() -> Rig {
        let (nc, mut x) = new_node_engine();
        x.no_logging();
        let frame = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let mut r = Rig { nc, x, order: vec![], logs: vec![], frame };
        for i in 0..N {
            let fr = r.frame.clone();
            r.nc.get_node_global().lock().unwrap().send_dynamic_node1x1(
                10 + i,
                Box::new(move |_: &[f32], out: &mut [f32], _: &DynNode1x1Context| {
                    let b = fr.load(std::sync::atomic::Ordering::Relaxed);
                    for (k, o) in out.iter_mut().enumerate() {
                        *o = sig(i, b + k);
                    }
                }),
            );
            r.nc.create_node(NodeId::Rust1x1(10 + i as u8));
            let l = Log::default();
            r.nc.get_node_global().lock().unwrap().send_dynamic_node1x1(20 + i, probe(&l));
            r.nc.create_node(NodeId::Rust1x1(20 + i as u8));
            r.logs.push(l);
        }
        r
    }
    fn program(&mut self, parts: &[Part]) {
        for p in parts {
            let n = match p {
                Part::W(i) => NodeId::FbWr(*i as u8),
                Part::R(i) => NodeId::FbRd(*i as u8),
                Part::Pad(i) => NodeId::Amp(*i as u8),
            };
            if self.nc.unique_index_for(&n).is_none() {
                self.nc.create_node(n);
            }
        }
        let mut p = self.nc.rebuild_node_ports();
        for x in parts {
            match x {
                Part::W(i) => {
                    self.nc.add_prog_node(&mut p, &NodeId::Rust1x1(10 + *i as u8));
                    self.nc.add_prog_node(&mut p, &NodeId::FbWr(*i as u8));
                }
                Part::R(i) => {
                    self.nc.add_prog_node(&mut p, &NodeId::FbRd(*i as u8));
                    self.nc.add_prog_node(&mut p, &NodeId::Rust1x1(20 + *i as u8));
                }
                Part::Pad(i) => self.nc.add_prog_node(&mut p, &NodeId::Amp(*i as u8)),
            }
        }
        for x in parts {
            match x {
                Part::W(i) => self.nc.set_prog_node_exec_connection(&mut p, (NodeId::FbWr(*i as u8), 0), (NodeId::Rust1x1(10 + *i as u8), 0)),
                Part::R(i) => self.nc.set_prog_node_exec_connection(&mut p, (NodeId::Rust1x1(20 + *i as u8), 0), (NodeId::FbRd(*i as u8), 0)),
                _ => {}
            }
        }
        self.nc.upload_prog(p, true);
        self.order = parts.to_vec();
    }
    fn block(&mut self, n: usize) {
        self.x.process_graph_updates();
        block(&mut self.x, &vec![0.0; n]);
        self.frame.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
    }
}

/// Runs segments (program, blocks) and compares what the readers give with a reference delay line.
fn check(segs: &[(Vec<Part>, Vec<usize>)], c: &mut Case) -> Result<(), String> {
    let mut r = Rig::new();
    // value written per instance and frame
    let mut written: Vec<Vec<Option<f32>>> = vec![vec![]; N];
    let mut frame = 0;
    for (parts, blocks) in segs {
        c.log(|| format!("frame {}: program {:?}, blocks {:?}", frame, parts, blocks));
        r.program(parts);
        for b in blocks {
            c.step();
            let before: Vec<usize> = r.logs.iter().map(|l| l.lock().unwrap().inp.len()).collect();
            r.block(*b);
            for i in 0..N {
                for k in 0..*b {
                    let w = parts.contains(&Part::W(i));
                    written[i].push(if w { Some(sig(i, frame + k)) } else { None });
                }
            }
            for i in 0..N {
                let l = r.logs[i].lock().unwrap();
                let got = &l.inp[before[i]..];
                if !parts.contains(&Part::R(i)) {
                    continue;
                }
                c.observe(&(i, bits(got)));
                for k in 0..*b {
                    c.checks += 1;
                    let f = frame + k;
                    let never = !written[i].iter().any(|x| x.is_some());
                    let want = if never || f < DELAY {
                        Some(0.0)
                    } else if written[i][..=f - DELAY].iter().all(|x| x.is_none()) {
                        // before the first written sample comes out
                        Some(0.0)
                    } else {
                        // a stretch during which the writer did not run is not specified
                        written[i][f - DELAY]
                    };
                    if let Some(w) = want {
                        if (got[k] - w).abs() > 1e-5 {
                            return Err(format!("frame {}: reader {} gives {} instead of {} (written {} frames before)", f, i, got[k], w, DELAY));
                        }
                    }
                }
            }
            frame += b;
        }
    }
    Ok(())
}

fn perms(v: &[Part]) -> Vec<Vec<Part>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut o = vec![];
    for i in 0..v.len() {
        let mut r = v.to_vec();
        let x = r.remove(i);
        for mut p in perms(&r) {
            p.insert(0, x);
            o.push(p);
        }
    }
    o
}

pub fn run(mc: &mut Mc) {
    mc.rule = "Every program order of the writers and readers, every cut of the run into blocks over the candidate positions and every order of starting and stopping them is run on the real engine and compared with a reference delay line of the documented length.".into();
    // all program orders of two instances, all cuts
    let orders = perms(&[Part::W(0), Part::R(0), Part::W(1), Part::R(1)]);
    let cuts = if mc.thorough() { vec![1, 7, 64, 100, 128, 137, 138, 139, 200, 256, 276, 414, 415] } else { vec![1, 64, 100, 137, 138, 139, 276, 414] };
    let k = cuts.len() as u32;
    mc.space("orders-and-cuts", orders.len() as u64 * (1u64 << k), |idx, c| {
        let mut d = Dec(idx);
        let o = &orders[d.take(orders.len())];
        let blocks: Vec<usize> = blocks_from_cuts(600, &cuts, d.0)
            .into_iter()
            .flat_map(|n| (0..(n + 127) / 128).map(move |i| (n - i * 128).min(128)))
            .collect();
        check(&[(o.clone(), blocks)], c)
    });
    // every constant block size
    mc.space("block-sizes", 128 * 4, |idx, c| {
        let mut d = Dec(idx);
        let b = d.take(128) + 1;
        let o: Vec<Part> = match d.take(4) {
            0 => vec![Part::W(0), Part::R(0)],
            1 => vec![Part::R(0), Part::W(0)],
            2 => vec![Part::R(1), Part::W(0), Part::R(0), Part::W(1), Part::R(2)],
            _ => vec![Part::R(0), Part::Pad(0), Part::W(2), Part::W(0), Part::R(2)],
        };
        check(&[(o, vec![b; 1500 / b])], c)
    });
    // starting and stopping writers and readers while audio runs
    let sets: Vec<Vec<Part>> = {
        let all = [Part::R(0), Part::W(0), Part::R(1), Part::W(1)];
        (0..16usize).map(|m| all.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, p)| *p).collect()).collect()
    };
    let lens = if mc.thorough() { vec![1usize, 37, 138, 250] } else { vec![1, 37, 250] };
    let nl = lens.len();
    mc.space("start-and-stop", (16 * 16 * 16 * nl * nl * 2) as u64, |idx, c| {
        let mut d = Dec(idx);
        let (a, b, e) = (d.take(16), d.take(16), d.take(16));
        let (l1, l2) = (lens[d.take(nl)], lens[d.take(nl)]);
        let rev = d.flag();
        let seg = |s: usize, n: usize| {
            let mut p = sets[s].clone();
            if rev {
                p.reverse();
            }
            let mut v = vec![];
            let mut n = n;
            while n > 0 {
                v.push(n.min(100));
                n -= n.min(100);
            }
            (p, v)
        };
        check(&[seg(a, l1), seg(b, l2), seg(e, 500)], c)
    });
    // the volume of the reader scales its output
    mc.space("volume", 21 * 2, |idx, c| {
        let mut d = Dec(idx);
        let v = d.take(21) as f32 / 20.0;
        let first = d.flag();
        let mut r = Rig::new();
        r.program(&if first { vec![Part::W(0), Part::R(0)] } else { vec![Part::R(0), Part::W(0)] });
        let p = pid(NodeId::FbRd(0), "vol");
        r.nc.set_param(p, SAtom::param(v));
        for _ in 0..10 {
            c.step();
            r.block(100);
        }
        let g = r.logs[0].lock().unwrap().inp.clone();
        c.observe(&bits(&g));
        for f in 700..1000 {
            c.checks += 1;
            let w = sig(0, f - DELAY) * p.denorm(v);
            if (g[f] - w).abs() > 1e-4 {
                return Err(format!("volume {}: frame {} is {} instead of {}", v, f, g[f], w));
            }
        }
        Ok(())
    });
    // a closed loop: what goes around comes back every DELAY frames, scaled
    mc.space("closed-loop", 128 * 2 * 2, |idx, c| {
        let mut d = Dec(idx);
        let blk = d.take(128) + 1;
        let inst = d.take(2) as u8 * 5;
        let gain = [0.5f32, 0.25][d.take(2)];
        c.log(|| format!("blocks of {}, instance {}, reader volume {}", blk, inst, gain));
        let (mut nc, mut x) = new_node_engine();
        x.no_logging();
        let (rd, wr, mix, inp, out) = (NodeId::FbRd(inst), NodeId::FbWr(inst), NodeId::Mix3(0), NodeId::Inp(0), NodeId::Rust1x1(0));
        let l = Log::default();
        nc.get_node_global().lock().unwrap().send_dynamic_node1x1(0, probe(&l));
        for n in [rd, wr, mix, inp, out] {
            nc.create_node(n);
        }
        let vp = pid(rd, "vol");
        nc.set_param(vp, SAtom::param(gain));
        let mut p = nc.rebuild_node_ports();
        for n in [inp, rd, mix, wr, out] {
            nc.add_prog_node(&mut p, &n);
        }
        nc.set_prog_node_exec_connection(&mut p, (mix, 0), (inp, 0));
        nc.set_prog_node_exec_connection(&mut p, (mix, 1), (rd, 0));
        nc.set_prog_node_exec_connection(&mut p, (wr, 0), (mix, 0));
        nc.set_prog_node_exec_connection(&mut p, (out, 0), (mix, 0));
        nc.upload_prog(p, true);
        x.process_graph_updates();
        let g = vp.denorm(gain);
        let src = |f: usize| if f < 300 { Sig::Smooth(4).at(f) } else { 0.0 };
        let mut want: Vec<f32> = vec![];
        let mut f = 0;
        while f < 900 {
            c.step();
            let inp: Vec<f32> = (0..blk).map(|k| src(f + k)).collect();
            block(&mut x, &inp);
            f += blk;
        }
        let got = l.lock().unwrap().inp.clone();
        c.observe(&bits(&got));
        for f in 0..900 {
            let w = src(f) + if f >= DELAY { g * want[f - DELAY] } else { 0.0 };
            want.push(w);
            c.checks += 1;
            if (got[f] - w).abs() > 1e-4 {
                return Err(format!("frame {}: the loop gives {} instead of {}", f, got[f], w));
            }
        }
        Ok(())
    });
    mc.assume("feedback buffers are made for 44100 Hz (a known limitation noted in the code); one writer per instance (documented)");
    mc.assume("while a writer does not run, the reader's output is not specified");
}
