//! C06 raw socket, C07 telnet: line-oriented front ends.
use crate::dev::{respond, Ev, Log};
use crate::engine::*;
use lxi_device::lock::{Mutex as DevMutex, SharedLock};
use simrt::exec;
use simrt::net::{self, Chunking, Peer};
use std::sync::Arc;

use crate::net_util::{chunking, policy};
/// id of the client a command came from: the byte after an optional `!` or `#digits`
fn author(cmd: &[u8]) -> Option<u8> {
    match cmd.first()? {
        b'!' => cmd.get(1).copied(),
        b'#' => cmd[1..].iter().find(|c| !c.is_ascii_digit()).copied(),
        c => Some(*c),
    }
}
/// A line body for client `id` that does not contain `avoid` bytes.
fn line(id: u8, avoid: &[u8], maxpat: u64) -> Vec<u8> {
    let mut v = match weighted(&[6, 2, 2]) {
        0 => vec![id],
        1 => vec![b'!', id],
        _ => {
            let mut v = format!("#{}", size(maxpat, &[1, 127, 128, 129, 512])).into_bytes();
            v.push(id);
            v
        }
    };
    let n = size(300, &[1, 2, 126, 127, 128, 255]);
    let mode = choose(3);
    for _ in 0..n {
        let c = match mode {
            0 => b'a' + choose(26) as u8,
            1 => choose(256) as u8,
            _ => pick(&[0u8, b'\r', b'\n', b' ', b';', 0x7f, 0x80, 0xfe, b'"', 0x0b, 0x1b]),
        };
        if !avoid.contains(&c) {
            v.push(c)
        }
    }
    v
}
/// Settle and read everything from every client until nothing moves.
fn drain(ps: &mut [Peer], out: &mut [Vec<u8>]) {
    let mut total = 0;
    loop {
        exec::settle();
        if total > 1 << 23 {
            exec::with(|w| w.stuck = Some("RUNAWAY: endless output".into()));
        }
        if exec::with(|w| w.stuck.is_some() || !w.panics.is_empty()) {
            break;
        }
        let mut any = false;
        for (p, o) in ps.iter_mut().zip(out.iter_mut()) {
            let d = p.read();
            any |= !d.is_empty();
            total += d.len();
            o.extend(d);
        }
        if !any && exec::idle() {
            break;
        }
    }
}
fn by(ev: &[Ev], id: u8) -> Vec<Vec<u8>> {
    ev.iter()
        .filter_map(|e| match e {
            Ev::Exec(c) if author(c) == Some(id) => Some(c.clone()),
            _ => None,
        })
        .collect()
}
fn shows(v: &[Vec<u8>]) -> String {
    v.iter().map(|x| show(x)).collect::<Vec<_>>().join(",")
}

#[cfg(feature = "raw")]
pub mod raw {
    use super::*;
    use lxi_socket::server::ServerConfig;

    struct Cl {
        id: u8,
        lines: Vec<Vec<u8>>,
        stream: Vec<u8>,
        tail: Vec<u8>,
        at: usize,
        reset: bool,
    }
    /// The same configuration, whatever the order of the calls that make it.
    fn built(mut c: ServerConfig, rt: u8, wt: u8, cap: usize, limit: usize) -> ServerConfig {
        for k in shuffled(4) {
            c = match k {
                0 => c.read_buffer(cap),
                1 => c.read_termination(rt),
                2 => c.write_termination(wt),
                _ => c.backpressure(limit),
            };
        }
        c
    }
    fn lines() -> CaseResult {
        exec::init(policy());
        let log = Log::new();
        let shared = SharedLock::new();
        let device = Arc::new(DevMutex::new(log.dev()));
        let rt = pick(&[b'\n', b'\r', 0u8, 0x1b, 0x7f, 4]);
        let wt = if choose(3) == 0 { rt } else { pick(&[b'\n', b'\r', 0u8, 0x17]) };
        let cap = pick(&[512 * 1024usize, 1, 2, 7, 16, 64, 1024]);
        let cfg = if chance(1, 4) {
            // `new` sets both terminators at once
            ServerConfig::new(cap, rt).write_termination(wt)
        } else {
            built(ServerConfig::default(), rt, wt, cap, 10)
        };
        let (rt, wt, cfg) = if chance(1, 8) {
            (b'\n', b'\n', ServerConfig::default())
        } else if chance(1, 8) {
            (rt, rt, ServerConfig::new(cap, rt))
        } else {
            (rt, wt, cfg)
        };
        let server = cfg.build();
        let unix = chance(1, 3);
        if unix {
            exec::spawn_named("server", server.accept_unix("/sim/sock", shared.clone(), device.clone()));
        } else {
            exec::spawn_named("server", server.accept("127.0.0.1:5025", shared.clone(), device.clone()));
        }
        exec::settle();
        let n = range(1, 3) as usize;
        let mut ps = vec![];
        let mut out = vec![vec![]; n];
        let mut cls = vec![];
        for i in 0..n {
            let id = b'A' + i as u8;
            let mut p = if unix { net::connect_unix("/sim/sock") } else { net::connect(5025) };
            ensure!(p.is_some(), "not-listening", "the server does not listen");
            let p = p.take().unwrap();
            p.set_chunking(chunking(), chunking());
            if chance(1, 4) {
                p.set_out_cap(range(1, 40) as usize);
            }
            let mut lines = vec![];
            let mut stream = vec![];
            for _ in 0..choose(6) {
                let l = if chance(1, 10) { vec![] } else { line(id, &[rt], 700) };
                stream.extend_from_slice(&l);
                stream.push(rt);
                lines.push(l);
            }
            let tail = if chance(1, 2) { line(id, &[rt], 20) } else { vec![] };
            stream.extend_from_slice(&tail);
            cls.push(Cl { id, lines, stream, tail, at: 0, reset: false });
            ps.push(p);
        }
        note(|| format!("terminators {rt:#x}/{wt:#x}, buffer {cap}, unix {unix}"));
        for c in &cls {
            note(|| format!("client {} lines {} tail {}", c.id as char, shows(&c.lines), show(&c.tail)));
        }
        let split_any = cls.iter().any(|c| c.lines.len() > 1);
        // deliver in pieces, interleaved
        for _ in 0..400 {
            let open: Vec<usize> = (0..n).filter(|&i| cls[i].at < cls[i].stream.len() && !cls[i].reset).collect();
            if open.is_empty() {
                break;
            }
            let i = pick(&open);
            let left = cls[i].stream.len() - cls[i].at;
            let k = match choose(4) {
                0 => left,
                1 => left.min(1),
                2 => left.min(range(1, 16) as usize),
                _ => range(1, left as u64) as usize,
            };
            ps[i].write(&cls[i].stream[cls[i].at..cls[i].at + k]);
            cls[i].at += k;
            match choose(5) {
                0 => exec::settle(),
                1 => exec::run_steps(range(1, 5)),
                2 => drain(&mut ps, &mut out),
                _ => {}
            }
            if n > 1 && chance(1, 40) {
                ps[i].reset();
                cls[i].reset = true;
                label("reset");
                note(|| format!("client {i} resets after {} bytes", cls[i].at));
            }
        }
        drain(&mut ps, &mut out);
        for (i, c) in cls.iter().enumerate() {
            if !c.reset {
                ensure!(!ps[i].gone(), "hangup", "the server closed the connection of client {} which is still open", c.id as char);
                // half-close for some, full close otherwise
                ps[i].shutdown_write();
            }
        }
        drain(&mut ps, &mut out);
        exec::advance(1000);
        let ev = log.take();
        ensure!(ev.iter().all(|e| matches!(e, Ev::Exec(_))), "other-call", "the device received calls other than execute: {ev:?}");
        let mut total = 0;
        for (i, c) in cls.iter().enumerate() {
            let got = by(&ev, c.id);
            let want: Vec<Vec<u8>> = c.lines.iter().filter(|l| author(l) == Some(c.id)).cloned().collect();
            if c.reset {
                ensure!(got.len() <= want.len() && got[..] == want[..got.len()], "exec-prefix", "client {} was reset; executed {}, sent {}", c.id as char, shows(&got), shows(&want));
                continue;
            }
            ensure!(got == want, "exec", "client {}: executed {}; complete lines sent {} (unterminated tail {})", c.id as char, shows(&got), shows(&want), show(&c.tail));
            let mut w = vec![];
            for l in &c.lines {
                if let Some(mut r) = respond(l) {
                    r.push(wt);
                    w.extend(r);
                }
            }
            ensure!(out[i] == w, "response", "client {} received {} ({} bytes), expected {} ({} bytes)", c.id as char, show(&out[i]), out[i].len(), show(&w), w.len());
            ensure!(ps[i].gone(), "open-after-eof", "the server keeps the connection of client {} after end of input", c.id as char);
            total += c.lines.len();
        }
        if cls.iter().all(|c| !c.reset) {
            ensure!(ev.len() == total, "exec", "{} commands executed, {total} lines sent", ev.len());
        }
        if split_any {
            nontrivial()
        }
        if cls.iter().any(|c| !c.tail.is_empty()) {
            label("unterminated tail")
        }
        Ok(())
    }

    /// At most `limit` clients are served at a time; the next one is served when one leaves.
    fn limit() -> CaseResult {
        exec::init(policy());
        let log = Log::new();
        let shared = SharedLock::new();
        let device = Arc::new(DevMutex::new(log.dev()));
        let lim = super::limit_value();
        let server = if choose(2) == 0 { ServerConfig::default().backpressure(lim) } else { built(ServerConfig::new(64, b'\r'), b'\n', b'\n', pick(&[64, 1024]), lim) }.build();
        exec::spawn_named("server", server.accept("127.0.0.1:5025", shared.clone(), device.clone()));
        exec::settle();
        super::limited(lim, 5025, &log, b"\n", |o| o)
    }
    fn bulk() -> CaseResult {
        exec::init(exec::Policy::Fifo);
        let log = Log::new();
        let shared = SharedLock::new();
        let device = Arc::new(DevMutex::new(log.dev()));
        let rt = pick(&[b'\n', b'\r', 0u8]);
        let wt = pick(&[b'\n', b'\r', 0u8]);
        let mut cfg = ServerConfig::default().read_termination(rt).write_termination(wt);
        if choose(2) == 0 {
            cfg = cfg.read_buffer(pick(&[64usize, 1000, 65_536]));
        }
        exec::spawn_named("server", cfg.build().accept("127.0.0.1:5025", shared, device));
        exec::settle();
        let Some(p) = net::connect(5025) else { fail!("not-listening", "the server does not listen") };
        p.set_out_cap(1 << 24);
        super::bulk(
            p,
            &log,
            &[rt],
            &[rt],
            |r| {
                let mut r = r.to_vec();
                r.push(wt);
                r
            },
            |o| o,
        )
    }
    fn visits() -> CaseResult {
        exec::init(exec::Policy::Fifo);
        let log = Log::new();
        let shared = SharedLock::new();
        let device = Arc::new(DevMutex::new(log.dev()));
        exec::spawn_named("server", ServerConfig::default().read_buffer(1024).build().accept("127.0.0.1:5025", shared, device));
        exec::settle();
        super::visits(
            5025,
            &log,
            b"\n",
            |r| {
                let mut r = r.to_vec();
                r.push(b'\n');
                r
            },
            |o| o,
        )
    }
    pub fn props() -> Vec<Prop> {
        vec![Prop {
            id: "C06",
            rule: "lines: 1-3 TCP or Unix-socket clients, 0-5 lines each with arbitrary bytes (also empty, longer than the buffer, no-response and long-response commands), random terminators and buffer size, random segmentation, short reads/writes and back-pressure, optional unterminated tail, half-close or reset; non-trivial: some client sends two or more lines. limit: more clients than the limit, random departures (limits up to 270); non-trivial: somebody had to wait. bulk: lines up to 600 kB, answers up to 520 kB, up to 1100 lines (sometimes 65 800), unterminated tails up to 100 kB; non-trivial: more than 10 kB or 100 lines. visits: 240 to 66100 clients one after the other, up to four at a time, who leave in drawn ways; non-trivial: every case",
            assumptions: &["virtual sockets stand in for the operating system's"],
            parts: vec![
                Part { name: "lines", quick: 200_000, thorough: 8_000_000, run: lines },
                Part { name: "bulk", quick: 1_500, thorough: 60_000, run: bulk },
                Part { name: "visits", quick: 600, thorough: 18_000, run: visits },
                Part { name: "limit", quick: 30_000, thorough: 1_200_000, run: limit },
            ],
        }]
    }
}

fn limit_value() -> usize {
    if chance(1, 12) {
        pick(&[range(5, 40), range(60, 70), range(120, 140), range(250, 270)]) as usize
    } else {
        range(1, 4) as usize
    }
}
fn ident(i: usize) -> Vec<u8> {
    if i < 26 { vec![b'A' + i as u8] } else { format!("Z{i}.").into_bytes() }
}
/// Long lines, long answers, very many lines, on one connection.
fn bulk(p: Peer, log: &Log, avoid: &[u8], line_end: &[u8], encode: impl Fn(&[u8]) -> Vec<u8>, clean: impl Fn(Vec<u8>) -> Vec<u8>) -> CaseResult {
    let mut ps = vec![p];
    let mut out = vec![vec![]];
    drain(&mut ps, &mut out);
    let (mut sent, mut want) = (vec![], vec![]);
    let mut stream = vec![];
    let many = chance(1, 3);
    let n = if many { if chance(1, 25) { range(65_500, 65_800) } else { pick(&[range(20, 200), range(250, 300), range(1000, 1100)]) } } else { range(1, 3) };
    for i in 0..n {
        let mut l = match choose(3) {
            0 => b"!".to_vec(),
            1 => format!("#{}.", if n > 2000 { choose(20) } else if many { choose(600) } else { pick(&[65_535, 65_536, 131_072, 131_073, 300_000, 524_289]) }).into_bytes(),
            _ => vec![b'x'],
        };
        let k = if n > 2000 { choose(4) } else if many { choose(40) } else { pick(&[0, 100, 1000, 65_534, 65_536, 100_000, 131_073, 300_000, 524_288, 600_000]) };
        l.extend((0..k).map(|j| ((j * 7) ^ (j >> 8) ^ i) as u8).filter(|c| !avoid.contains(c)));
        if l.last() == Some(&b'\r') {
            l.push(b'.')
        }
        stream.extend(&l);
        stream.extend(line_end);
        if let Some(r) = respond(&l) {
            want.extend(encode(&r));
        }
        sent.push(Ev::Exec(l));
    }
    let tail = pick(&[0usize, 0, 1, 511, 512, 513, 65_536, 100_000]);
    stream.extend(std::iter::repeat(b'a').take(tail));
    note(|| format!("{n} lines, {} bytes, and {tail} more", stream.len() - tail));
    let mut at = 0;
    while at < stream.len() {
        let k = (stream.len() - at).min(pick(&[1 << 20, range(1, 100_000) as usize, 128, 65_536]).max(stream.len() / 50));
        ps[0].write(&stream[at..at + k]);
        at += k;
        if choose(2) == 0 {
            drain(&mut ps, &mut out);
        }
    }
    drain(&mut ps, &mut out);
    ensure!(!ps[0].gone(), "hangup", "the server closed the connection");
    ps[0].shutdown_write();
    drain(&mut ps, &mut out);
    exec::advance(1000);
    let got = log.take();
    let first = got.iter().zip(&sent).position(|(a, b)| a != b);
    ensure!(got.len() == sent.len() && first.is_none(), "exec", "{} commands executed, {n} lines sent; the first that differs is number {first:?} ({:?} bytes sent)", got.len(), first.map(|i| if let Ev::Exec(c) = &sent[i] { c.len() } else { 0 }));
    let o = clean(std::mem::take(&mut out[0]));
    ensure!(o == want, "response", "received {} bytes, expected {} bytes; the first that differs is number {:?}", o.len(), want.len(), o.iter().zip(&want).position(|(a, b)| a != b));
    ensure!(ps[0].gone(), "open-after-eof", "the server keeps the connection after end of input");
    if stream.len() > 10_000 || n > 100 {
        nontrivial()
    }
    Ok(())
}
/// Very many clients one after the other, some at the same time.
fn visits(port: u16, log: &Log, line_end: &[u8], encode: impl Fn(&[u8]) -> Vec<u8>, clean: impl Fn(Vec<u8>) -> Vec<u8>) -> CaseResult {
    let n = match weighted(&[12, 8, 1]) {
        0 => range(240, 540),
        1 => range(1000, 4200),
        _ => range(65_520, 66_100),
    };
    let slots = range(1, 4) as usize;
    let ways: Vec<u64> = (0..range(1, 4)).map(|_| choose(5)).collect();
    let kinds: Vec<u64> = (0..range(1, 3)).map(|_| choose(4)).collect();
    note(|| format!("{n} clients, {slots} at a time; they leave by {ways:?} after {kinds:?}"));
    let connect = || -> Result<Peer, Fail> {
        let Some(p) = net::connect(port) else { fail!("not-listening", "the server does not listen") };
        p.set_chunking(Chunking::Whole, Chunking::Whole);
        p.set_out_cap(1 << 20);
        Ok(p)
    };
    // sends lines, is answered
    let talk = |p: &mut Peer, lines: &[Vec<u8>], k: u64| -> CaseResult {
        let mut want = vec![];
        for l in lines {
            p.write(&[&l[..], line_end].concat());
            want.extend(respond(l).map(|r| encode(&r)).unwrap_or_default());
        }
        exec::settle();
        let got: Vec<Ev> = log.take();
        let sent: Vec<Ev> = lines.iter().map(|l| Ev::Exec(l.clone())).collect();
        ensure!(got == sent, "exec", "client {k}: the device saw {got:?}, sent {sent:?}");
        let o = clean(p.read());
        ensure!(o == want && !p.gone(), "response", "client {k}: received {} expected {} (gone: {})", show(&o), show(&want), p.gone());
        Ok(())
    };
    let mut stays = connect()?;
    talk(&mut stays, &[b"first".to_vec()], 0)?;
    let mut ps: Vec<Option<Peer>> = (0..slots).map(|_| None).collect();
    for k in 0..n {
        if k % 256 == 0 {
            alive();
        }
        let i = k as usize % slots;
        if let Some(mut p) = ps[i].take() {
            match ways[k as usize % ways.len()] {
                0 => drop(p),
                1 => p.reset(),
                2 => {
                    p.shutdown_write();
                    exec::settle();
                    let o = clean(p.read());
                    ensure!(o.is_empty() && p.gone(), "open-after-eof", "client {k} closes its side: received {}, connection gone: {}", show(&o), p.gone());
                }
                3 => {
                    // in the middle of a line
                    p.write(b"!half a li");
                    drop(p)
                }
                _ => {
                    // and does not wait for the answer
                    p.write(&[b"!last", line_end].concat());
                    exec::settle();
                    let got = log.take();
                    ensure!(got == [Ev::Exec(b"!last".to_vec())], "exec", "client {k}: the device saw {got:?}");
                    p.reset()
                }
            }
            if k % 3 != 0 {
                exec::settle();
            }
        }
        let mut p = connect()?;
        match kinds[k as usize % kinds.len()] {
            0 => talk(&mut p, &[format!("q{k}").into_bytes()], k)?,
            1 => talk(&mut p, &[format!("!{k}").into_bytes(), format!("#200.{k}").into_bytes(), b"end".to_vec()], k)?,
            2 => {
                // a line in two parts
                p.write(b"in two ");
                exec::settle();
                let v = log.take();
                let o = clean(p.read());
                ensure!(v.is_empty() && o.is_empty(), "exec", "client {k}: half a line: the device saw {v:?}, received {}", show(&o));
                p.write(&[format!("parts {k}").as_bytes(), line_end].concat());
                exec::settle();
                let (c, got) = (format!("in two parts {k}").into_bytes(), log.take());
                let want = encode(&respond(&c).unwrap());
                let o = clean(p.read());
                ensure!(got == [Ev::Exec(c)] && o == want, "exec", "client {k}: a line in two parts: the device saw {got:?}, received {} expected {}", show(&o), show(&want));
            }
            _ => {}
        }
        ps[i] = Some(p);
        if k % 100 == 0 {
            talk(&mut stays, &[format!("still{k}").into_bytes()], k)?;
        }
    }
    talk(&mut stays, &[b"last".to_vec()], n)?;
    for p in ps.iter_mut().flatten() {
        talk(p, &[b"well".to_vec()], n)?;
    }
    nontrivial();
    Ok(())
}
/// Connect more clients than are served at once; check who is answered.
fn limited(lim: usize, port: u16, log: &Log, term: &[u8], clean: impl Fn(Vec<u8>) -> Vec<u8>) -> CaseResult {
    let n = lim + range(1, 3) as usize;
    let mut ps: Vec<Option<Peer>> = (0..n).map(|_| net::connect(port)).collect();
    ensure!(ps.iter().all(|p| p.is_some()), "not-listening", "the server does not listen");
    // (client, answered)
    let mut order: Vec<usize> = (0..n).collect();
    for (i, p) in ps.iter().enumerate() {
        let mut m = ident(i);
        m.extend_from_slice(term);
        p.as_ref().unwrap().write(&m);
    }
    let mut answered = vec![false; n];
    let mut left = 0;
    loop {
        exec::settle();
        exec::advance(500);
        for i in 0..n {
            if let Some(p) = &mut ps[i] {
                let o = clean(p.read());
                let mut a = vec![b'<'];
                a.extend(ident(i));
                if o.windows(a.len()).any(|w| w == a) {
                    answered[i] = true;
                }
            }
        }
        let served: Vec<usize> = order.iter().copied().take(lim).collect();
        for &i in &order {
            ensure!(answered[i] == served.contains(&i), "limit", "limit {lim}, connections in order {order:?}: client {i} answered {}", answered[i]);
        }
        left += 1;
        if order.is_empty() || (lim > 4 && left > 8) {
            break;
        }
        if order.len() > lim {
            nontrivial()
        }
        let k = choose(served.len() as u64) as usize;
        let i = order.remove(k);
        note(|| format!("client {i} leaves"));
        let mut p = ps[i].take().unwrap();
        if chance(1, 3) {
            p.reset()
        }
        drop(p);
    }
    let ev = log.take();
    let due = n - order.len().saturating_sub(lim);
    ensure!(ev.len() == due, "exec", "{} commands executed, {due} sent", ev.len());
    Ok(())
}

#[cfg(feature = "telnet")]
pub mod telnet {
    use super::*;
    use lxi_telnet::server::ServerConfig;
    const IAC: u8 = 255;
    const PROMPT: &[u8] = b"SCPI> ";

    /// Remove every prompt (with its go-ahead if one is due); None if a go-ahead is missing or stray.
    fn strip(o: &[u8], sga: bool) -> (Vec<u8>, usize) {
        let mut p = PROMPT.to_vec();
        if !sga {
            p.extend([IAC, 249]);
        }
        let (mut v, mut n, mut i) = (vec![], 0, 0);
        while i < o.len() {
            if o[i..].starts_with(&p) {
                i += p.len();
                n += 1;
            } else {
                v.push(o[i]);
                i += 1;
            }
        }
        (v, n)
    }
    fn escape(b: &[u8]) -> Vec<u8> {
        b.iter().flat_map(|c| if *c == IAC { vec![IAC, IAC] } else { vec![*c] }).collect()
    }
    fn ended(p: &[u8], sga: bool) -> bool {
        let mut e = PROMPT.to_vec();
        if !sga {
            e.extend([IAC, 249]);
        }
        p.ends_with(&e)
    }

    struct Cl {
        id: u8,
        lines: Vec<Vec<u8>>,
        stream: Vec<u8>,
        at: usize,
        reset: bool,
    }
    fn lines() -> CaseResult {
        exec::init(policy());
        let log = Log::new();
        let shared = SharedLock::new();
        let device = Arc::new(DevMutex::new(log.dev()));
        let server = if choose(2) == 0 { ServerConfig::default() } else { ServerConfig::new(range(0, 64) as usize) }.build();
        exec::spawn_named("server", server.accept("127.0.0.1:5024", shared.clone(), device.clone()));
        exec::settle();
        let n = range(1, 3) as usize;
        let (mut ps, mut out, mut cls) = (vec![], vec![vec![]; n], vec![]);
        for i in 0..n {
            let id = b'A' + i as u8;
            let p = net::connect(5024);
            ensure!(p.is_some(), "not-listening", "the server does not listen");
            let p = p.unwrap();
            p.set_chunking(chunking(), chunking());
            if chance(1, 4) {
                p.set_out_cap(range(1, 40) as usize);
            }
            let (mut lines, mut stream) = (vec![], vec![]);
            for _ in 0..choose(6) {
                let l = if chance(1, 10) { vec![] } else { line(id, &[b'\n', IAC, b'>'], 500) };
                stream.extend_from_slice(&l);
                // a line that ends in CR needs CR LF
                if l.last() == Some(&b'\r') || choose(3) < 2 {
                    stream.push(b'\r');
                } else {
                    label("bare LF");
                }
                stream.push(b'\n');
                lines.push(l);
            }
            if chance(1, 3) {
                stream.extend(line(id, &[b'\n', IAC, b'>'], 5));
            }
            cls.push(Cl { id, lines, stream, at: 0, reset: false });
            ps.push(p);
        }
        for c in &cls {
            note(|| format!("client {} sends {}", c.id as char, show(&c.stream)));
        }
        for _ in 0..400 {
            let open: Vec<usize> = (0..n).filter(|&i| cls[i].at < cls[i].stream.len() && !cls[i].reset).collect();
            if open.is_empty() {
                break;
            }
            let i = pick(&open);
            let left = cls[i].stream.len() - cls[i].at;
            let k = match choose(4) {
                0 => left,
                1 => left.min(1),
                2 => left.min(range(1, 16) as usize),
                _ => range(1, left as u64) as usize,
            };
            ps[i].write(&cls[i].stream[cls[i].at..cls[i].at + k]);
            cls[i].at += k;
            match choose(5) {
                0 => exec::settle(),
                1 => exec::run_steps(range(1, 5)),
                2 => drain(&mut ps, &mut out),
                _ => {}
            }
            if n > 1 && chance(1, 40) {
                ps[i].reset();
                cls[i].reset = true;
                label("reset");
            }
        }
        drain(&mut ps, &mut out);
        for (i, c) in cls.iter().enumerate() {
            if !c.reset {
                ensure!(!ps[i].gone(), "hangup", "the server closed the connection of client {}", c.id as char);
                ensure!(ended(&out[i], false), "prompt", "the output to client {} does not end in a prompt with go-ahead: {}", c.id as char, show(&out[i][out[i].len().saturating_sub(20)..]));
                ps[i].shutdown_write();
            }
        }
        drain(&mut ps, &mut out);
        exec::advance(1000);
        let ev = log.take();
        ensure!(ev.iter().all(|e| matches!(e, Ev::Exec(_))), "other-call", "the device received calls other than execute: {ev:?}");
        let mut total = 0;
        for (i, c) in cls.iter().enumerate() {
            let got = by(&ev, c.id);
            let want: Vec<Vec<u8>> = c.lines.iter().filter(|l| author(l) == Some(c.id)).cloned().collect();
            if c.reset {
                ensure!(got.len() <= want.len() && got[..] == want[..got.len()], "exec-prefix", "client {} was reset; executed {}, sent {}", c.id as char, shows(&got), shows(&want));
                continue;
            }
            ensure!(got == want, "exec", "client {}: executed {}; lines sent {}", c.id as char, shows(&got), shows(&want));
            let mut w = vec![];
            for l in &c.lines {
                if let Some(r) = respond(l) {
                    w.extend(escape(&r));
                    w.extend(b"\r\n");
                }
            }
            let (o, _) = strip(&out[i], false);
            ensure!(o == w, "response", "client {} received (prompts removed) {} ({} bytes), expected {} ({} bytes)", c.id as char, show(&o), o.len(), show(&w), w.len());
            ensure!(ps[i].gone(), "open-after-eof", "the server keeps the connection of client {} after end of input", c.id as char);
            total += c.lines.len();
        }
        if cls.iter().all(|c| !c.reset) {
            ensure!(ev.len() == total, "exec", "{} commands executed, {total} lines sent", ev.len());
        }
        if cls.iter().any(|c| c.lines.len() > 1) {
            nontrivial()
        }
        Ok(())
    }

    /// Option negotiation, echo, go-ahead, erase character/line. Control sequences arrive whole
    /// and alone, as libtelnet-rs requires; data arrives in arbitrary pieces.
    fn options() -> CaseResult {
        exec::init(policy());
        let log = Log::new();
        let shared = SharedLock::new();
        let device = Arc::new(DevMutex::new(log.dev()));
        let server = ServerConfig::default().build();
        exec::spawn_named("server", server.accept("127.0.0.1:5024", shared.clone(), device.clone()));
        exec::settle();
        let p = net::connect(5024);
        ensure!(p.is_some(), "not-listening", "the server does not listen");
        let mut ps = vec![p.unwrap()];
        let mut out = vec![vec![]];
        drain(&mut ps, &mut out);
        ensure!(strip(&out[0], false) == (vec![], 1), "prompt", "the greeting is {}, not one prompt with go-ahead", show(&out[0]));
        out[0].clear();
        let mut on = [false; 256];
        let mut cmd: Vec<u8> = vec![];
        let mut execs = vec![];
        let mut did = (false, false);
        for _ in 0..range(1, 14) {
            let mut want: Vec<u8> = vec![];
            if chance(1, 2) {
                ps[0].set_chunking(Chunking::Whole, chunking());
                let op = pick(&[1u8, 3, 0, 1, 3, 24, 31, 39, 86, 6]);
                let local = matches!(op, 0 | 1 | 3);
                let seq = match weighted(&[6, 5, 2, 2, 2, 3, 2, 1]) {
                    0 => {
                        if !local {
                            want.extend([IAC, 252, op]);
                        } else if !on[op as usize] {
                            want.extend([IAC, 251, op]);
                            on[op as usize] = true;
                        }
                        did.0 = true;
                        vec![IAC, 253, op]
                    }
                    1 => {
                        if on[op as usize] {
                            want.extend([IAC, 252, op]);
                            on[op as usize] = false;
                        }
                        vec![IAC, 254, op]
                    }
                    2 => {
                        want.extend([IAC, 254, op]);
                        if local {
                            // an option that is on locally answers WONT/WILL bookkeeping of the
                            // library; only unsupported ones are stated here
                            continue;
                        }
                        vec![IAC, 251, op]
                    }
                    3 => vec![IAC, 241],
                    4 => vec![IAC, 249],
                    5 => {
                        cmd.pop();
                        did.1 = true;
                        vec![IAC, 247]
                    }
                    6 => {
                        cmd.clear();
                        did.1 = true;
                        vec![IAC, 248]
                    }
                    _ => {
                        // a complete sub-negotiation of an option: ignored
                        let mut v = vec![IAC, 250, op];
                        v.extend((0..choose(5)).map(|_| b'a' + choose(26) as u8));
                        v.extend([IAC, 240]);
                        v
                    }
                };
                note(|| format!("control {seq:?}"));
                ps[0].write(&seq);
                drain(&mut ps, &mut out);
            } else {
                ps[0].set_chunking(chunking(), chunking());
                let mut d = vec![];
                let k = choose(4);
                for i in 0..=k {
                    if i > 0 || chance(1, 2) {
                        d.extend(line(b'A', &[b'\n', IAC, b'>'], 300));
                    }
                    if i < k || chance(1, 2) {
                        d.extend(if choose(3) < 2 { &b"\r\n"[..] } else { b"\n" });
                    }
                }
                for &b in &d {
                    if on[1] {
                        want.push(b);
                    }
                    if b == b'\n' {
                        if cmd.last() == Some(&b'\r') {
                            cmd.pop();
                        }
                        if let Some(r) = respond(&cmd) {
                            want.extend(escape(&r));
                            want.extend(b"\r\n");
                        }
                        execs.push(Ev::Exec(std::mem::take(&mut cmd)));
                    } else {
                        cmd.push(b);
                    }
                }
                if d.is_empty() {
                    continue;
                }
                note(|| format!("data {}", show(&d)));
                let mut at = 0;
                while at < d.len() {
                    let k = if choose(2) == 0 { d.len() - at } else { range(1, (d.len() - at) as u64) as usize };
                    ps[0].write(&d[at..at + k]);
                    at += k;
                    drain(&mut ps, &mut out);
                }
            }
            let sga = on[3];
            let o = std::mem::take(&mut out[0]);
            let (v, n) = strip(&o, sga);
            ensure!(v == want, "output", "with echo {} and suppress-go-ahead {sga} the server sent {}, expected {} (prompts removed)", on[1], show(&v), show(&want));
            ensure!(n >= 1 && ended(&o, sga), "prompt", "output does not end in a prompt (suppress-go-ahead {sga}): {}", show(&o[o.len().saturating_sub(20)..]));
            let ev = log.peek();
            ensure!(ev == execs, "exec", "executed {ev:?}, expected {execs:?}");
        }
        ps[0].shutdown_write();
        drain(&mut ps, &mut out);
        ensure!(ps[0].gone(), "open-after-eof", "the server keeps the connection after end of input");
        ensure!(log.peek() == execs, "exec", "end of input executed something");
        if (did.0 || did.1) && !execs.is_empty() {
            nontrivial()
        }
        if did.1 {
            label("erase")
        }
        Ok(())
    }
    fn limit() -> CaseResult {
        exec::init(policy());
        let log = Log::new();
        let shared = SharedLock::new();
        let device = Arc::new(DevMutex::new(log.dev()));
        let lim = super::limit_value();
        let c = if choose(2) == 0 { ServerConfig::default() } else { ServerConfig::new(200) };
        let server = match choose(3) {
            0 => c.backpressure(lim),
            1 => c.backpressure(lim).read_buffer(100),
            _ => c.read_buffer(100).backpressure(lim),
        }
        .build();
        exec::spawn_named("server", server.accept("127.0.0.1:5024", shared.clone(), device.clone()));
        exec::settle();
        super::limited(lim, 5024, &log, b"\r\n", |o| strip(&o, false).0)
    }
    fn bulk() -> CaseResult {
        exec::init(exec::Policy::Fifo);
        let log = Log::new();
        let shared = SharedLock::new();
        let device = Arc::new(DevMutex::new(log.dev()));
        exec::spawn_named("server", ServerConfig::default().build().accept("127.0.0.1:5024", shared, device));
        exec::settle();
        let Some(p) = net::connect(5024) else { fail!("not-listening", "the server does not listen") };
        p.set_out_cap(1 << 24);
        super::bulk(
            p,
            &log,
            &[b'\n', IAC, b'>'],
            if choose(2) == 0 { b"\r\n" } else { b"\n" },
            |r| {
                let mut r = escape(r);
                r.extend(b"\r\n");
                r
            },
            |o| strip(&o, false).0,
        )
    }
    fn visits() -> CaseResult {
        exec::init(exec::Policy::Fifo);
        let log = Log::new();
        let shared = SharedLock::new();
        let device = Arc::new(DevMutex::new(log.dev()));
        exec::spawn_named("server", ServerConfig::default().build().accept("127.0.0.1:5024", shared, device));
        exec::settle();
        super::visits(
            5024,
            &log,
            b"\r\n",
            |r| {
                let mut r = escape(r);
                r.extend(b"\r\n");
                r
            },
            |o| strip(&o, false).0,
        )
    }
    pub fn props() -> Vec<Prop> {
        vec![Prop {
            id: "C07",
            rule: "lines: 1-3 clients, 0-5 CR LF or LF terminated lines of arbitrary bytes except 255, random segmentation, short reads/writes, back-pressure, half-close or reset; non-trivial: some client sends two or more lines. options: random interleaving of data with whole control sequences (DO/DONT/WILL, NOP, GA, EC, EL, sub-negotiation); non-trivial: a DO or an erase and an executed line. limit: more clients than the limit (up to 270); non-trivial: somebody had to wait. bulk: lines up to 600 kB, answers up to 520 kB, up to 1100 lines (sometimes 65 800); non-trivial: more than 10 kB or 100 lines. visits: 240 to 66100 clients one after the other, up to four at a time, who leave in drawn ways; non-trivial: every case",
            assumptions: &[
                "virtual sockets stand in for the operating system's",
                "control sequences arrive whole in one read and data bytes are not 255: libtelnet-rs, a dependency, loses them otherwise",
            ],
            parts: vec![
                Part { name: "lines", quick: 200_000, thorough: 8_000_000, run: lines },
                Part { name: "options", quick: 200_000, thorough: 8_000_000, run: options },
                Part { name: "bulk", quick: 600, thorough: 24_000, run: bulk },
                Part { name: "visits", quick: 600, thorough: 18_000, run: visits },
                Part { name: "limit", quick: 30_000, thorough: 1_200_000, run: limit },
            ],
        }]
    }
}
