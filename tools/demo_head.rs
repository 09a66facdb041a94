use hexodsp::nodes::*;
use hexodsp::*;

#[allow(dead_code)]
/// nodes in execution order, and links (node, input, source, output)
fn rig(nodes: &[NodeId], links: &[(NodeId, &str, NodeId, &str)]) -> (NodeConfigurator, NodeExecutor) {
    let (mut nc, mut x) = new_node_engine();
    x.no_logging();
    for n in nodes {
        nc.create_node(*n);
    }
    let mut p = nc.rebuild_node_ports();
    for n in nodes {
        nc.add_prog_node(&mut p, n);
    }
    for (d, i, s, o) in links {
        nc.set_prog_node_exec_connection(&mut p, (*d, d.inp(i).unwrap()), (*s, s.out(o).unwrap()));
    }
    nc.upload_prog(p, true);
    x.set_sample_rate(44100.0);
    (nc, x)
}
#[allow(dead_code)]
/// renders `total` frames in blocks of `bs`, the first audio input being `f(frame)`
fn play(x: &mut NodeExecutor, total: usize, bs: usize, f: &dyn Fn(usize) -> f32) -> Vec<f32> {
    let mut out = vec![];
    while out.len() < total {
        let n = bs.min(total - out.len());
        x.process_graph_updates();
        let inp: Vec<f32> = (0..n).map(|i| f(out.len() + i)).collect();
        let (mut l, mut r) = (vec![0.0; n], vec![0.0; n]);
        x.process(&mut Context { nframes: n, output: &mut [&mut l[..], &mut r[..]], input: &[&inp[..], &inp[..]] });
        out.extend(l);
    }
    out
}
#[allow(dead_code)]
fn matrix(w: usize, h: usize) -> (Matrix, NodeExecutor) {
    let (nc, mut x) = new_node_engine();
    x.no_logging();
    (Matrix::new(nc, w, h), x)
}
