//! C08: devices behind a box, and the example devices.
use crate::dev::{respond, Ev, Log};
use crate::engine::*;
use lxi_device::util::{EchoDevice, SimpleDevice};
use lxi_device::{trigger::Source, Device, DeviceError};

const SOURCES: [Source; 20] = [
    Source::Bus,
    Source::Immediate,
    Source::Internal,
    Source::External,
    Source::Lxi0,
    Source::Lxi1,
    Source::Lxi2,
    Source::Lxi3,
    Source::Lxi4,
    Source::Lxi5,
    Source::Lxi6,
    Source::Lxi7,
    Source::Lan0,
    Source::Lan1,
    Source::Lan2,
    Source::Lan3,
    Source::Lan4,
    Source::Lan5,
    Source::Lan6,
    Source::Lan7,
];
#[derive(Clone, Debug)]
enum Op {
    Exec(Vec<u8>),
    Status,
    Trigger(usize),
    Clear,
    Remote(bool),
    Lockout(bool),
}
fn op() -> Op {
    match choose(6) {
        0 => Op::Exec({
            let mut v = pick(&[&b""[..], b"!", b"#20", b"*IDN?"]).to_vec();
            v.extend(bytes(choose(20) as usize));
            v
        }),
        1 => Op::Status,
        2 => Op::Trigger(choose(20) as usize),
        3 => Op::Clear,
        4 => Op::Remote(choose(2) == 1),
        _ => Op::Lockout(choose(2) == 1),
    }
}
/// Generic on purpose: with a box, this is the implementation for boxes.
fn drive<D: Device>(d: &mut D, o: &Op) -> String {
    match o {
        Op::Exec(c) => format!("{:?}", d.execute(c)),
        Op::Status => format!("{:?}", d.get_status()),
        Op::Trigger(s) => format!("{:?}", d.trigger(SOURCES[*s])),
        Op::Clear => format!("{:?}", d.clear()),
        Op::Remote(r) => format!("{:?}", d.set_remote(*r)),
        Op::Lockout(e) => {
            d.set_local_lockout(*e);
            "()".into()
        }
    }
}
fn boxed() -> CaseResult {
    let log = Log::new();
    let depth = choose(3);
    let mut plain = log.dev();
    let mut b1: Box<dyn Device> = Box::new(log.dev());
    let mut b2: Box<Box<dyn Device>> = Box::new(Box::new(log.dev()));
    let mut b3 = Box::new(log.dev());
    let n = range(1, 12);
    for _ in 0..n {
        let o = op();
        log.set(|s| {
            s.stb = choose(256) as u8;
            s.fail_status = chance(1, 4);
            s.fail_trigger = chance(1, 4);
            s.fail_clear = chance(1, 4);
            s.fail_remote = chance(1, 4);
        });
        let error = choose(4);
        let set = |s: &mut crate::dev::State| {
            s.error = match error {
                0 => None,
                1 => Some(DeviceError::NotSupported),
                2 => Some(DeviceError::IoTimeout),
                _ => Some(DeviceError::IoError),
            }
        };
        note(|| format!("{o:?}"));
        let _ = log.take();
        log.set(set);
        let want = drive(&mut plain, &o);
        let we: Vec<Ev> = log.take();
        log.set(set);
        let got = match depth {
            0 => drive(&mut b1, &o),
            1 => drive(&mut b2, &o),
            _ => drive(&mut b3, &o),
        };
        let ge = log.take();
        ensure!(got == want && ge == we, "forwarding", "{o:?}: the box answers {got} and its device saw {ge:?}; the device itself answers {want} and sees {we:?}");
        if let Op::Exec(c) = &o {
            ensure!(want == format!("{:?}", respond(c)), "harness", "mock device");
        }
    }
    if n > 3 {
        nontrivial()
    }
    Ok(())
}
fn examples() -> CaseResult {
    let mut echo = EchoDevice;
    let mut simple = SimpleDevice::new();
    let mut boxed: Box<dyn Device> = Box::new(SimpleDevice::default());
    let (mut rmt, mut trig, mut clear) = (false, false, false);
    let mut idn: Option<Vec<u8>> = None;
    for _ in 0..range(1, 16) {
        match choose(5) {
            0 | 1 => {
                let mut c: Vec<u8> = match choose(4) {
                    0 => b"*IDN?".to_vec(),
                    1 => b"EVENT".to_vec(),
                    2 => b"QUERY?".to_vec(),
                    _ => bytes(choose(30) as usize),
                };
                for x in c.iter_mut() {
                    if choose(2) == 0 {
                        *x = x.to_ascii_lowercase()
                    }
                }
                if chance(1, 3) {
                    c.push(b'\n')
                }
                let name = c.strip_suffix(b"\n").unwrap_or(&c).to_ascii_uppercase();
                let r = simple.execute(&c);
                note(|| format!("{} answered {:?}", show(&c), r.as_deref().map(show)));
                ensure!(boxed.execute(&c) == r, "forwarding", "{} has another answer through a box", show(&c));
                match &name[..] {
                    b"*IDN?" => {
                        let r = r.unwrap_or_default();
                        // manufacturer, model, serial number, firmware
                        ensure!(r.split(|c| *c == b',').count() == 4, "identification", "*IDN? answered {}", show(&r));
                        ensure!(idn.get_or_insert(r.clone()) == &r, "identification", "*IDN? answered {} and something else before", show(&r));
                    }
                    b"EVENT" => ensure!(r.is_none(), "event", "{} answered {r:?}", show(&c)),
                    b"QUERY?" => ensure!(r.as_deref() == Some(b"RESPONSE"), "query", "{} answered {r:?}", show(&c)),
                    _ => {
                        let w: Vec<u8> = c.iter().rev().copied().collect();
                        ensure!(r.as_ref() == Some(&w), "reverse", "{} answered {r:?}", show(&c));
                        nontrivial();
                    }
                }
                ensure!(echo.execute(&c).as_ref() == Some(&c), "echo", "the echo device does not echo {}", show(&c));
            }
            2 => {
                rmt = choose(2) == 1;
                let ok = simple.set_remote(rmt).is_ok() && boxed.set_remote(rmt).is_ok() && echo.set_remote(rmt).is_ok();
                ensure!(ok, "result", "set_remote failed");
            }
            3 => {
                trig = true;
                let s = pick(&SOURCES);
                let ok = simple.trigger(s).is_ok() && boxed.trigger(s).is_ok() && echo.trigger(s).is_ok();
                ensure!(ok, "result", "trigger failed");
            }
            _ => {
                trig = false;
                clear = true;
                let ok = simple.clear().is_ok() && boxed.clear().is_ok() && echo.clear().is_ok();
                ensure!(ok, "result", "clear failed");
            }
        }
        let w = (rmt as u8) << 7 | (trig as u8) << 6 | (clear as u8) << 5;
        for (n, s) in [("the device", simple.get_status()), ("the boxed device", boxed.get_status())] {
            ensure!(matches!(s, Ok(v) if v == w), "status", "{n} reports {s:?}; remote {rmt}, triggered {trig}, cleared {clear}");
        }
        ensure!(matches!(echo.get_status(), Ok(0)), "status", "status of the echo device");
    }
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C08",
        rule: "boxed: at least 4 operations; examples: a command that has no meaning of its own is answered",
        assumptions: &[],
        parts: vec![
            Part { name: "boxed", run: boxed, quick: 400_000, thorough: 16_000_000 },
            Part { name: "examples", run: examples, quick: 400_000, thorough: 16_000_000 },
        ],
    }]
}
