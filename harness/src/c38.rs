//! The log: messages go from every logging thread through a queue of its own to whoever retrieves them.
use crate::eng::at_points;
use crate::mc::*;
use hexodsp::log::{Log, LogReceiver};
use std::io::Write;
use std::sync::{Arc, Condvar, Mutex};

/// A scheduler for real threads: one runs at a time, and it hands on right before a queue operation.
struct Sched {
    s: Mutex<St>,
    cv: Condvar,
}
struct St {
    turn: usize,
    alive: Vec<bool>,
    /// the schedule to follow: 0 goes on with the same thread, others switch
    choice: Vec<usize>,
    pos: usize,
    /// what could have been chosen
    width: Vec<usize>,
    left: usize,
}
impl Sched {
    fn next(&self, st: &mut St, me: usize) {
        // the running thread first, so that 0 is no preemption
        let mut en: Vec<usize> = (0..st.alive.len()).filter(|t| st.alive[*t] && *t != me).collect();
        let free = !st.alive[me];
        if st.alive[me] {
            en.insert(0, me);
        }
        if en.is_empty() {
            return;
        }
        let w = if !free && st.left == 0 { 1 } else { en.len() };
        let k = st.choice.get(st.pos).copied().unwrap_or(0).min(w - 1);
        st.pos += 1;
        st.width.push(w);
        if st.choice.len() < st.pos {
            st.choice.push(k);
        }
        if !free && k > 0 {
            st.left -= 1;
        }
        st.turn = en[k];
        self.cv.notify_all();
    }
    fn point(&self, me: usize) {
        let mut st = self.s.lock().unwrap();
        self.next(&mut st, me);
        while st.turn != me {
            st = self.cv.wait(st).unwrap();
        }
    }
    fn start(&self, me: usize) {
        let mut st = self.s.lock().unwrap();
        while st.turn != me {
            st = self.cv.wait(st).unwrap();
        }
    }
    fn finish(&self, me: usize) {
        let mut st = self.s.lock().unwrap();
        st.alive[me] = false;
        self.next(&mut st, me);
    }
}

fn hooked<R>(s: &Arc<Sched>, me: usize, f: impl FnOnce() -> R) -> Result<R, String> {
    s.start(me);
    let s2 = s.clone();
    ringbuf::hook::set(Some(Box::new(move || s2.point(me))));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ringbuf::hook::set(None);
    s.finish(me);
    r.map_err(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()))
}

#[derive(Clone, Debug)]
struct Scn {
    /// what every thread logs; a leading '#' hands it over as bytes
    logs: Vec<Vec<String>>,
    retrievals: usize,
    preemptions: usize,
    /// that many bytes are already in every queue, so that it wraps around
    wrap: usize,
}

const NAMES: [&str; 3] = ["first", "second", "third"];

fn put(l: &mut Log, m: &str) {
    match m.strip_prefix('#') {
        Some(m) => l.log_buf(m.as_bytes()),
        None => l.log(|w| write!(w, "{}", m).unwrap()),
    }
}

type Got = Vec<(String, String)>;

/// one execution of the schedule; returns the choices made and how many there were at each point
fn schedule(sc: &Scn, choice: Vec<usize>) -> Result<(Got, Vec<usize>, Vec<usize>), String> {
    let n = sc.logs.len();
    let mut recv = LogReceiver::new();
    let mut logs: Vec<Log> = (0..n).map(|i| recv.spawn_logger(NAMES[i])).collect();
    if sc.wrap > 0 {
        for l in logs.iter_mut() {
            let mut left = sc.wrap;
            while left > 0 {
                let k = left.min(400);
                put(l, &"x".repeat(k - 1));
                left -= k;
            }
            recv.retrieve_messages(|_, _| {});
        }
    }
    let s = Arc::new(Sched { s: Mutex::new(St { turn: 0, alive: vec![true; n + 1], choice, pos: 0, width: vec![], left: sc.preemptions }), cv: Condvar::new() });
    let mut got: Got = vec![];
    let mut err = None;
    std::thread::scope(|t| {
        let mut hs = vec![];
        for (i, mut l) in logs.drain(..).enumerate() {
            let s = s.clone();
            let msgs = &sc.logs[i];
            hs.push(t.spawn(move || {
                hooked(&s, i + 1, || {
                    for m in msgs.iter() {
                        put(&mut l, m);
                    }
                })
            }));
        }
        let r = hooked(&s, 0, || {
            for _ in 0..sc.retrievals {
                recv.retrieve_messages(|n, m| got.push((n.to_string(), m.to_string())));
            }
        });
        if let Err(e) = r {
            err = Some(format!("retrieving: {}", e));
        }
        for h in hs {
            if let Err(e) = h.join().unwrap() {
                err = Some(format!("logging: {}", e));
            }
        }
    });
    if let Some(e) = err {
        return Err(e);
    }
    recv.retrieve_messages(|n, m| got.push((n.to_string(), m.to_string())));
    let mut st = s.s.lock().unwrap();
    Ok((got, std::mem::take(&mut st.choice), std::mem::take(&mut st.width)))
}

fn explore(sc: &Scn, c: &mut Case) -> Result<(), String> {
    let mut choice: Vec<usize> = vec![];
    loop {
        let (got, ch, width) = schedule(sc, choice.clone()).map_err(|e| format!("schedule {:?}: {}", choice, e))?;
        alive();
        c.step();
        c.steps += ch.len() as u64;
        for (i, msgs) in sc.logs.iter().enumerate() {
            c.checks += 1;
            let have: Vec<&str> = got.iter().filter(|g| g.0 == NAMES[i]).map(|g| g.1.as_str()).collect();
            let want: Vec<&str> = msgs.iter().map(|m| m.trim_start_matches('#')).collect();
            if have != want {
                c.log(|| format!("schedule {:?}", ch));
                return Err(format!("thread {} logged {:?}, retrieved was {:?} (schedule {:?})", NAMES[i], want, have, ch));
            }
        }
        if got.iter().any(|g| !NAMES.contains(&g.0.as_str())) {
            return Err("a message of a thread that does not exist".into());
        }
        c.observe(&got);
        // the next schedule
        let mut i = ch.len();
        loop {
            if i == 0 {
                return Ok(());
            }
            i -= 1;
            if ch[i] + 1 < width[i] {
                choice = ch[..i].to_vec();
                choice.push(ch[i] + 1);
                break;
            }
        }
    }
}

const LETTERS: [&str; 4] = ["a", "ä", "€", "𝄞"];

fn text(kind: usize, bytes: usize) -> String {
    let mut s = String::new();
    // characters of several bytes, starting at every offset
    let l = LETTERS[kind];
    for _ in 0..bytes % l.len() {
        s.push('.');
    }
    while s.len() < bytes {
        s.push_str(l);
    }
    s
}

fn all(recv: &mut LogReceiver) -> Got {
    let mut v = vec![];
    recv.retrieve_messages(|n, m| v.push((n.to_string(), m.to_string())));
    v
}

const ROOM: usize = 4096;

pub fn run(mc: &mut Mc) {
    mc.rule = "what is retrieved is what was logged: every message whole, once, in its thread's order and with its name, under every schedule of the explored ones".into();
    let thorough = mc.thorough();
    // schedules
    let t = |v: &[&[&str]]| -> Vec<Vec<String>> { v.iter().map(|m| m.iter().map(|s| s.to_string()).collect()).collect() };
    let sets = [
        t(&[&["ab"]]),
        t(&[&["#ab"]]),
        t(&[&["", "a"]]),
        t(&[&["a", "bc"]]),
        t(&[&["#a", "#bc"]]),
        t(&[&["ä", "#€"]]),
        t(&[&["#a", "b", "#c"]]),
        t(&[&["a"], &["b"]]),
        t(&[&["#a"], &["#b"]]),
        t(&[&["a", "#b"], &["#c", "d"]]),
        t(&[&["a"], &["#b"], &["c"]]),
    ];
    let mut scns = vec![];
    for s in sets.iter() {
        for retrievals in 1..=mc.pick(2, 3) {
            for wrap in [0usize, ROOM - 2, ROOM - 1, ROOM] {
                let preemptions = if s.len() == 1 { mc.pick(4, 5) } else if s.len() == 2 { mc.pick(3, 4) } else { 3 };
                scns.push(Scn { logs: s.clone(), retrievals, preemptions, wrap });
            }
        }
    }
    mc.space("schedules", scns.len() as u64, |i, c| {
        c.log(|| format!("{:?}", scns[i as usize]));
        explore(&scns[i as usize], c)
    });
    // lengths
    let most = if thorough { 9000 } else { 1400 };
    mc.space("lengths", most * 4 * 4, |i, c| {
        let mut d = Dec(i);
        let how = d.take(4);
        let kind = d.take(4);
        let n = d.0 as usize;
        let m = text(kind, n);
        c.log(|| format!("a message of {} bytes of {:?}, way {}", m.len(), LETTERS[kind], how));
        c.step();
        let mut r = LogReceiver::new();
        let mut l = r.spawn_logger("x");
        put(&mut l, "before");
        match how {
            0 => l.log(|w| {
                let _ = write!(w, "{}", m);
            }),
            1 => l.log(|w| {
                // in pieces
                for ch in m.chars() {
                    let _ = write!(w, "{}", ch);
                }
            }),
            2 => l.log(|w| {
                let h = m.char_indices().nth(m.chars().count() / 2).map(|c| c.0).unwrap_or(0);
                let _ = write!(w, "{}", &m[..h]);
                let _ = w.flush();
                let _ = write!(w, "{}", &m[h..]);
            }),
            _ => l.log_buf(m.as_bytes()),
        }
        // room for the message after it
        let mut got = if m.len() > 4000 { all(&mut r) } else { vec![] };
        put(&mut l, "after");
        got.extend(all(&mut r));
        c.checks += 1;
        let texts: Vec<&str> = got.iter().map(|g| g.1.as_str()).collect();
        c.observe(&texts.iter().map(|t| t.len()).collect::<Vec<_>>());
        if texts.first() != Some(&"before") || texts.last() != Some(&"after") {
            return Err(format!("the short messages around it are retrieved as {:?} and {:?}", texts.first(), texts.last()));
        }
        match &texts[1..texts.len() - 1] {
            [t] if *t == m => Ok(()),
            // the buffer of a logger has 512 bytes
            [t] if m.len() > 510 && m.starts_with(t) && t.len() > 500 => Ok(()),
            // too long for the queue
            [] if how == 3 && m.len() > 4000 => Ok(()),
            v => Err(format!("{} bytes were retrieved as {:?} bytes", m.len(), v.iter().map(|t| t.len()).collect::<Vec<_>>())),
        }
    });
    // more than fits
    let step = mc.pick(7, 1);
    mc.space("full", 4 * 2 * (510 / step + 1), |i, c| {
        let mut d = Dec(i);
        let kind = d.take(4);
        let bytes = d.flag();
        let len = d.0 as usize * step as usize;
        for pre in [0usize, 1, 300] {
            let mut r = LogReceiver::new();
            let mut l = r.spawn_logger("x");
            let mut other = r.spawn_logger("y");
            for _ in 0..pre {
                put(&mut l, "q");
                if pre == 300 {
                    put(&mut l, "");
                    all(&mut r);
                }
            }
            all(&mut r);
            c.log(|| format!("messages of {} bytes of {:?} until more than {} bytes are waiting, {} messages before", len, LETTERS[kind], ROOM, pre));
            let m = text(kind, len);
            let mut msgs = vec![];
            let mut room = ROOM;
            let mut sure = 0;
            let mut k = 0;
            while k < ROOM + 200 {
                let t = format!("{}", m);
                if bytes {
                    l.log_buf(t.as_bytes());
                } else {
                    put(&mut l, &t);
                }
                c.step();
                if room >= t.len() + 1 && sure == msgs.len() {
                    room -= t.len() + 1;
                    sure += 1;
                }
                k += t.len() + 1;
                msgs.push(t);
            }
            // a short one may still find room
            put(&mut l, "!");
            put(&mut other, "other");
            let got = all(&mut r);
            c.checks += 1;
            c.observe(&got.len());
            if got.iter().filter(|g| g.0 == "y").map(|g| g.1.as_str()).collect::<Vec<_>>() != ["other"] {
                return Err("the message of another thread did not arrive".into());
            }
            let mut have: Vec<&str> = got.iter().filter(|g| g.0 == "x").map(|g| g.1.as_str()).collect();
            if have.last() == Some(&"!") {
                have.pop();
            }
            if have.iter().any(|h| *h != m) {
                return Err(format!("a message of {} bytes of {:?} arrived as {:?}", m.len(), LETTERS[kind], have.iter().find(|h| **h != m)));
            }
            if have.len() < sure || have.len() > msgs.len() {
                return Err(format!("{} messages arrived, {} were logged and {} fit", have.len(), msgs.len(), sure));
            }
            // and then all is well again
            put(&mut l, "again");
            let got = all(&mut r);
            if got != [("x".to_string(), "again".to_string())] {
                return Err(format!("after the queue was full: {:?}", got));
            }
        }
        Ok(())
    });
    // any bytes
    mc.space("bytes", 256 * 257, |i, c| {
        let v: Vec<u8> = if i < 256 { vec![i as u8] } else { vec![(i / 256 - 1) as u8, (i % 256) as u8] };
        c.log(|| format!("{:?}", v));
        c.step();
        let mut r = LogReceiver::new();
        let mut l = r.spawn_logger("x");
        l.log_buf(&v);
        put(&mut l, "after");
        let got = all(&mut r);
        c.checks += 1;
        c.observe(&got);
        if got.last().map(|g| g.1.as_str()) != Some("after") {
            return Err(format!("the message after {:?} is {:?}", v, got.last()));
        }
        if let Ok(t) = std::str::from_utf8(&v) {
            if got.len() != 2 || got[0].1 != t {
                return Err(format!("{:?} arrived as {:?}", t, got));
            }
        }
        Ok(())
    });
    // one side in the middle of the other, with what a client calls
    mc.space("nested", 6 * 6 * 3, |i, c| {
        let mut d = Dec(i);
        let (a, b, how) = (d.take(6), d.take(6), d.take(3));
        let mut r = LogReceiver::new();
        let mut l = r.spawn_logger("x");
        let mut got: Got = vec![];
        let mut want: Vec<String> = vec![];
        c.step();
        for k in 0..a {
            put(&mut l, &format!("a{}", k));
            want.push(format!("a{}", k));
        }
        match how {
            0 => {
                // logging while a message is shown
                let mut k = 0;
                r.retrieve_messages(|n, m| {
                    got.push((n.to_string(), m.to_string()));
                    if k < b {
                        put(&mut l, &format!("b{}", k));
                        want.push(format!("b{}", k));
                        k += 1;
                    }
                });
            }
            1 => {
                // retrieving while a message is written
                let cell = std::cell::RefCell::new((&mut r, &mut got));
                l.log(|w| {
                    let _ = write!(w, "c{}", b);
                    let mut x = cell.borrow_mut();
                    let (r, got) = &mut *x;
                    r.retrieve_messages(|n, m| got.push((n.to_string(), m.to_string())));
                });
                want.push(format!("c{}", b));
            }
            _ => {
                // retrieving right before a queue operation
                at_points(&[b], &mut |_| r.retrieve_messages(|n, m| got.push((n.to_string(), m.to_string()))), || {
                    put(&mut l, "#d1");
                    put(&mut l, "d2");
                });
                want.extend(["d1".to_string(), "d2".to_string()]);
            }
        }
        r.retrieve_messages(|n, m| got.push((n.to_string(), m.to_string())));
        c.checks += 1;
        c.observe(&got);
        let have: Vec<&String> = got.iter().map(|g| &g.1).collect();
        if have != want.iter().collect::<Vec<_>>() {
            return Err(format!("retrieved {:?} instead of {:?}", have, want));
        }
        Ok(())
    });
    // the loggers of threads, which all share one receiver
    mc.space("threads", 1, |_, c| {
        let names: [&'static str; 4] = ["one", "two", "three", "four"];
        for round in 0..3 {
            c.step();
            std::thread::scope(|s| {
                for n in names {
                    s.spawn(move || {
                        hexodsp::log(|w| write!(w, "lost").unwrap());
                        assert!(hexodsp::log::init_thread_logger(n));
                        assert!(!hexodsp::log::init_thread_logger("another name"));
                        for k in 0..20 {
                            hexodsp::log(|w| write!(w, "{} {} {}", n, round, k).unwrap());
                        }
                    });
                }
            });
            let mut got: Got = vec![];
            hexodsp::log::retrieve_log_messages(|n, m| got.push((n.to_string(), m.to_string())));
            for n in names {
                c.checks += 1;
                let have: Vec<String> = got.iter().filter(|g| g.0 == n).map(|g| g.1.clone()).collect();
                let want: Vec<String> = (0..20).map(|k| format!("{} {} {}", n, round, k)).collect();
                if have != want {
                    return Err(format!("thread {}: {:?}", n, have));
                }
            }
            if got.len() != 80 {
                return Err(format!("{} messages instead of 80", got.len()));
            }
        }
        // threads of the same name, alive at the same time or one after another, and one that sets up
        // its logger while another one retrieves
        for (n, reading) in [(1, false), (2, false), (3, false), (1, true), (2, true)] {
            c.step();
            let run = |k: usize, early: std::sync::mpsc::Sender<()>| {
                std::thread::spawn(move || {
                    let _ = early.send(());
                    hexodsp::log::init_thread_logger("same");
                    hexodsp::log(|w| write!(w, "{}", k).unwrap());
                })
            };
            let mut got: Got = vec![];
            let mut ts = vec![];
            let (tx, rx) = std::sync::mpsc::channel();
            if reading {
                std::thread::spawn(|| {
                    hexodsp::log::init_thread_logger("first");
                    hexodsp::log(|w| write!(w, "message").unwrap());
                })
                .join()
                .unwrap();
                hexodsp::log::retrieve_log_messages(|_, _| {
                    for k in 0..n {
                        ts.push(run(k, tx.clone()));
                        let _ = rx.recv();
                    }
                    real_sleep_ms(100);
                });
            } else {
                for k in 0..n {
                    let t = run(k, tx.clone());
                    if n == 2 {
                        t.join().unwrap();
                    } else {
                        ts.push(t);
                    }
                }
            }
            for t in ts {
                t.join().unwrap();
            }
            hexodsp::log::retrieve_log_messages(|n, m| got.push((n.to_string(), m.to_string())));
            got.sort();
            let want: Got = (0..n).map(|k| ("same".to_string(), k.to_string())).collect();
            c.checks += 1;
            if got != want {
                return Err(format!("{} threads logged once each{}, and {:?} arrived", n, if reading { " after starting during a retrieval" } else { "" }, got));
            }
        }
        c.observe(&0);
        Ok(())
    });
    mc.assume("the queue operations themselves are atomic (crate ringbuf); a message is one call of the logging function, of at most 510 bytes, longer ones may be cut");
}
