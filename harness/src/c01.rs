use crate::eng::*;
use hexodsp::*;
use crate::layout::*;
use crate::mc::*;

fn check(l: &Layout, nr: usize, c: &mut Case) -> Result<(), String> {
    c.log(|| l.text());
    if !l.valid() {
        c.observe(&0u8);
        return Ok(());
    }
    let mut r = rig(l.w, l.h, nr);
    l.place(&mut r.e.m);
    c.step();
    r.e.m.sync().map_err(|e| format!("valid layout refused: {:?}", e))?;
    c.step();
    c.checks += r.compare_links(l)?;
    c.checks += r.compare(l, &[5, 3])?;
    c.step();
    c.step();
    c.observe(&l.links());
    c.observe(l);
    Ok(())
}

pub fn grid(w: usize, h: usize, al: &[Option<LCell>], idx: u64) -> Layout {
    let mut d = Dec(idx);
    let mut l = Layout::new(w, h);
    for i in 0..w * h {
        l.c[i] = al[d.take(al.len())];
    }
    l
}

pub fn perm(mut idx: u64, n: usize) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut v = vec![];
    for k in (1..=n as u64).rev() {
        v.push(pool.remove((idx % k) as usize));
        idx /= k;
    }
    v
}

pub fn run(mc: &mut Mc) {
    mc.rule = "A state is a layout (cells with node, ports per edge) executed on the real engine; distinct observations are distinct layouts and link sets.".into();
    let al = alphabet();

    // every way two adjacent cells can be labelled, at every position of a 3x3 grid
    // out edge value {-,0,1} x in edge value {-,0..4} x other out edges {none, all} x other in edges
    mc.space("adjacent-pairs", 9 * 3 * 3 * 6 * 2 * 2 * 2, |idx, c| {
        let mut d = Dec(idx);
        let (x, y) = (d.take(3), d.take(3));
        let dir = d.take(3);
        let o = d.take(3) as i8 - 1;
        let i = d.take(6) as i8 - 1;
        let others_out = d.flag();
        let others_in = d.flag();
        let tail = d.flag();
        let mut l = Layout::new(3, 3);
        let mut os = if others_out { [1, 0, 1] } else { [-1; 3] };
        os[dir] = o;
        l.set(x, y, lc(N::Inp, [-1; 3], os));
        let up = if x % 2 == 0 { -1i64 } else { 0 };
        let (tx, ty, slot) = match dir {
            0 => (x as i64 + 1, y as i64 + up, 2),
            1 => (x as i64 + 1, y as i64 + up + 1, 1),
            _ => (x as i64, y as i64 + 1, 0),
        };
        if tx >= 3 || ty < 0 || ty >= 3 {
            c.observe(&1u8);
            c.log(|| "neighbour outside the grid".into());
        } else {
            let mut is = if others_in { [3, 4, 3] } else { [-1; 3] };
            is[slot] = i;
            l.set(tx as usize, ty as usize, lc(N::R(0), is, [0, 0, 0]));
        }
        if tail && tx < 3 && ty >= 0 && ty + 1 < 3 {
            l.set(tx as usize, ty as usize + 1, lc(N::Out, [0, -1, -1], [-1; 3]));
        }
        check(&l, 1, c)
    });

    // all 2x2 grids over the full alphabet
    mc.space("grid-2x2", pow(10, 4), |idx, c| check(&grid(2, 2, &al, idx), 3, c));
    // column of three
    mc.space("grid-1x3", pow(10, 3), |idx, c| check(&grid(1, 3, &al, idx), 3, c));
    // 3x2 / 2x3
    let n = mc.pick(6, 9);
    let al2: Vec<_> = al[..n].to_vec();
    mc.space("grid-3x2", pow(n as u64, 6), |idx, c| check(&grid(3, 2, &al2, idx), 3, c));
    let n = mc.pick(5, 8);
    let al3: Vec<_> = al[..n].to_vec();
    mc.space("grid-2x3", pow(n as u64, 6), |idx, c| check(&grid(2, 3, &al3, idx), 3, c));

    // a vertical chain of k nodes in every instance permutation and every input port choice:
    // creation order (column scan) and dependency order disagree when the column is split
    let k = mc.pick(4usize, 5usize);
    let perms: u64 = (1..=k as u64).product();
    mc.space("chain-permutations", perms * pow(5, k as u32 - 1) * 2, |idx, c| {
        let mut d = Dec(idx);
        let split = d.flag();
        let p = perm(d.0 % perms, k);
        d.0 /= perms;
        let ports: Vec<i8> = (0..k - 1).map(|_| d.take(5) as i8).collect();
        let mut l = Layout::new(4, k + 2);
        if !split {
            // Inp, chain, Out in one column
            l.set(1, 0, lc(N::Inp, [-1; 3], [-1, -1, 1]));
            for j in 0..k {
                let i = if j == 0 { 0 } else { ports[j - 1] };
                l.set(1, j + 1, lc(N::R(p[j] as u8), [i, -1, -1], [-1, -1, 0]));
            }
            l.set(1, k + 1, lc(N::Out, [0, -1, -1], [-1; 3]));
        } else {
            // pairs (p[j] -> p[j+1]) drawn separately, in reverse order of the chain
            for j in 0..k - 1 {
                let x = (k - 2 - j) % 4;
                let y = ((k - 2 - j) / 4) * 3;
                if y + 1 >= l.h {
                    return Ok(());
                }
                l.set(x, y, lc(N::R(p[j] as u8), [-1; 3], [-1, -1, 0]));
                l.set(x, y + 1, lc(N::R(p[j + 1] as u8), [ports[j], -1, -1], [-1, -1, -1]));
            }
            l.set(0, 2, lc(N::R(p[k - 1] as u8), [-1; 3], [-1, -1, 0]));
            l.set(0, 3, lc(N::Out, [1, -1, -1], [-1; 3]));
        }
        check(&l, k, c)
    });

    // many nodes: every chain length around the powers of two up to the limit of the 8 bit instance
    let lens: Vec<usize> = if mc.thorough() {
        (1..=255).collect()
    } else {
        vec![1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 250]
    };
    let w = 16usize;
    mc.space("long-chains", lens.len() as u64, |idx, c| {
        // a snake of len nodes drawn as pairs in columns
        let len = lens[idx as usize];
        let cols = 2 * w;
        let mut l = Layout::new(cols, 3 * (len / cols + 2));
        let mut x = 0;
        let mut y = 0;
        for j in 0..len {
            let a = if j == 0 { lc(N::Inp, [-1; 3], [-1, -1, 0]) } else { lc(N::R((j - 1) as u8), [-1; 3], [-1, -1, 0]) };
            l.set(x, y, a);
            l.set(x, y + 1, lc(N::R(j as u8), [0, -1, -1], [-1; 3]));
            x += 2;
            if x >= cols {
                x = 0;
                y += 3;
            }
        }
        l.set(x, y, lc(N::R((len - 1) as u8), [-1; 3], [-1, -1, 0]));
        l.set(x, y + 1, lc(N::Out, [0, -1, -1], [-1; 3]));
        check(&l, len, c)
    });
    // wide fans: one node feeding n nodes, whose outputs are read one after the other
    let fans: Vec<usize> = if mc.thorough() { (1..=120).collect() } else { vec![1, 2, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 66, 100] };
    mc.space("wide-fans", fans.len() as u64, |idx, c| {
        let n = fans[idx as usize];
        let mut l = Layout::new(2 * n + 2, 6);
        for j in 0..n {
            // R0 -> R(j+1) ; R(j+1) -> R(j+2) beta
            l.set(2 * j, 0, lc(N::R(0), [-1; 3], [-1, -1, 0]));
            l.set(2 * j, 1, lc(N::R(j as u8 + 1), [0, -1, -1], [-1, -1, -1]));
            if j > 0 {
                l.set(2 * j, 3, lc(N::R(j as u8), [-1; 3], [-1, -1, 0]));
                l.set(2 * j, 4, lc(N::R(j as u8 + 1), [2, -1, -1], [-1; 3]));
            }
        }
        l.set(2 * n, 0, lc(N::R(n as u8), [-1; 3], [-1, -1, 0]));
        l.set(2 * n, 1, lc(N::Out, [0, -1, -1], [-1; 3]));
        check(&l, n + 1, c)
    });
    mc.assume("node arithmetic of the recording DSP nodes is exact f32 arithmetic repeated by the interpreter");
    mc.assume("cells reference existing ports of their node");

    // one node linked at any subset of many inputs
    mc.space("many links into one node", 1024, |idx, c| many_links(idx, c));
    // nodes know which of their ports are linked
    mc.space("linked ports of inputs", 128, |idx, c| {
        let sc = NodeId::Scope(0);
        let ports = ["in1", "in2", "in3", "time", "trig", "thrsh", "gain2"];
        let mut e = engine(8, 2);
        for (i, p) in ports.iter().enumerate() {
            if idx >> i & 1 == 1 {
                e.m.place(i, 0, Cell::empty(NodeId::Amp(i as u8)).out(None, None, Some(0)));
                e.m.place(i, 1, Cell::empty(sc).input(sc.inp(p), None, None));
            }
        }
        e.m.place(7, 1, Cell::empty(sc));
        e.m.sync().map_err(|e| format!("{:?}", e))?;
        e.settle(1);
        let h = e.m.get_scope_handle(0).ok_or("no scope")?;
        for i in 0..3 {
            c.checks += 1;
            if h.is_active(i) != (idx >> i & 1 == 1) {
                return Err(format!("inputs linked {:07b}: scope signal {} active: {}", idx, i, h.is_active(i)));
            }
        }
        c.observe(&idx);
        Ok(())
    });
    mc.space("linked ports of outputs", 128, |idx, c| {
        let t = NodeId::Test(0);
        let mut e = engine(8, 2);
        for i in 0..6 {
            if idx >> i & 1 == 1 {
                e.m.place(i, 0, Cell::empty(t).out(None, None, Some(i as u8)));
                e.m.place(i, 1, Cell::empty(NodeId::Amp(i as u8)).input(Some(0), None, None));
            }
        }
        if idx >> 6 & 1 == 1 {
            e.m.place(6, 0, Cell::empty(NodeId::Amp(6)).out(None, None, Some(0)));
            e.m.place(6, 1, Cell::empty(t).input(Some(0), None, None));
        }
        e.m.place(7, 1, Cell::empty(t));
        e.m.sync().map_err(|e| format!("{:?}", e))?;
        e.settle(1);
        e.m.update_output_feedback();
        let fb = |o: &str| e.m.out_fb_for(&t, t.out(o).unwrap());
        let want = [Some((idx & 1) as f32), Some((idx >> 6 & 1) as f32), Some((idx & 63) as f32)];
        let got = [fb("out2"), fb("out3"), fb("outc")];
        c.checks += 3;
        if got != want {
            return Err(format!("outputs linked {:06b}, input linked {}: the node believes {:?}", idx & 63, idx >> 6, got));
        }
        c.observe(&idx);
        Ok(())
    });
}

fn many_links(idx: u64, c: &mut Case) -> Result<(), String> {
    use std::sync::atomic::{AtomicU32, Ordering};
    let mux = NodeId::Mux9(0);
    let mut e = engine(12, 3);
    let sel = std::sync::Arc::new(AtomicU32::new(0));
    let linked = |i: usize| idx >> i & 1 == 1;
    for i in 0..10 {
        let port = if i == 9 { mux.inp("slct") } else { mux.inp(&format!("in_{}", i + 1)) };
        if linked(i) {
            e.m.place(i, 0, Cell::empty(NodeId::Rust1x1(i as u8)).out(None, None, Some(0)));
            e.m.place(i, 1, Cell::empty(mux).input(port, None, None));
        }
    }
    e.m.place(10, 0, Cell::empty(mux).out(None, None, Some(0)));
    e.m.place(10, 1, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
    for i in 0..9 {
        e.m.set_param(pid(mux, &format!("in_{}", i + 1)), SAtom::param(-0.1 * i as f32 - 0.05));
    }
    e.m.set_param(pid(mux, "in_cnt"), SAtom::setting(8));
    e.m.sync().map_err(|e| format!("{:?}", e))?;
    for i in 0..10 {
        if linked(i) {
            let sel = sel.clone();
            e.m.set_dynamic_node1x1(
                i,
                Box::new(move |_: &[f32], out: &mut [f32], _: &DynNode1x1Context| {
                    let k = sel.load(Ordering::SeqCst) as f32;
                    out.fill(if i == 9 { (k + 0.5) / 9.0 } else { 0.1 * i as f32 + 0.05 });
                }),
            );
        }
    }
    e.settle(8);
    for k in 0..9 {
        sel.store(k as u32, Ordering::SeqCst);
        c.step();
        let (l, _) = e.audio(&[0.0; 4]);
        let shown = if linked(9) { k } else { 0 };
        let want = if linked(shown) { 0.1 * shown as f32 + 0.05 } else { -0.1 * shown as f32 - 0.05 };
        c.checks += 1;
        c.observe(&l[3].to_bits());
        if l.iter().any(|x| (x - want).abs() > 1e-5) {
            return Err(format!("inputs linked {:010b}, input {} selected: {:?} instead of {}", idx, shown, l, want));
        }
    }
    Ok(())
}
