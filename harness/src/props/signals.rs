//! C29: the same as ever, in a program that handles signals: system calls that wait are interrupted
//! again and again.

use crate::ensure;
use crate::mon::{Case, Fail, Prop, Verdict};
use crate::net::{self, Signals};
use crate::props::discovery::{Disc, Seen};
use crate::props::resolver::{How, Resolver};
use crate::props::{advertiser, discovery, faults, resolver, sockets, tap};
use crate::rng::hash_bytes;
use std::io;
use std::time::{Duration, Instant};
use uwuhi::name::Label;
use uwuhi::service::{Service, ServiceInstance};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        rule: "case = a case of C13, C16, C17, C19, C22 or C23, or an operation that is answered late or not at all, or an advertiser that nobody asks for a while, while the threads that run the library handle a signal every 0.05 to 3 ms (or, waiting for a resolver's timeout, up to five of them); judged by the monitors of those properties; non-trivial = every case",
        quick: 5_000,
        thorough: 120_000,
        threads: 0,
        run: c29,
        required: &["signals", "resolutions", "instance_discoveries", "type_discoveries", "loads", "advertisers", "taps", "silent_resolutions", "silent_discoveries", "late_answers", "idle_advertisers"],
    }]
}

fn silent_discovery(c: &mut Case<'_>) -> Verdict {
    net::pin();
    let server = net::udp(false);
    let is_async = c.rng.chance(1, 3);
    let t = Duration::from_millis(c.rng.range(15, 60) as u64);
    let retransmit = Duration::from_millis(c.rng.range(4, 80) as u64);
    let op = c.rng.below(3);
    let addr = server.local_addr().unwrap();
    c.note = format!("silent server, async {is_async}, discovery timeout {t:?}, retransmit timeout {retransmit:?}, operation {op}, {}", c.note);
    let call = net::call("discovery", move || {
        let mut d = Disc::new(is_async, addr, &vec![b"local".to_vec()])?;
        d.timeouts(retransmit, t);
        let s = Service::new(Label::new("_svc"), discovery::transport(true));
        let start = Instant::now();
        let r = match op {
            0 => d.instances_until(&s, &Seen::default(), || false),
            1 => d.types_until(&Seen::default(), || false),
            _ => match d.details(&ServiceInstance::from_service(Label::new("x"), s)) {
                Ok(_) => Err(io::Error::other("details from nowhere")),
                Err(e) if e.kind() == io::ErrorKind::Interrupted => Err(e),
                Err(_) => Ok(()),
            },
        };
        r.map(|()| start.elapsed())
    });
    match call.wait()? {
        Ok(took) => {
            ensure!(
                took + Duration::from_millis(8) >= t,
                "returned after {took:?}, before the discovery timeout of {t:?}"
            );
            // Once at first, and once whenever nothing has come for that long.
            let queries = net::drain(&server).len() as u32;
            let most = 1 + (took.as_micros() / retransmit.saturating_sub(Duration::from_millis(2)).as_micros()) as u32;
            ensure!(
                queries <= most,
                "sent its query {queries} times in {took:?} with a retransmit timeout of {retransmit:?}"
            );
        }
        Err(e) => return Err(format!("failed with {e:?} although nothing happened but signals").into()),
    }
    c.count("silent_discoveries", 1);
    Ok(())
}

fn silent_resolution(c: &mut Case<'_>) -> Verdict {
    net::pin();
    let server = net::udp(false);
    let is_async = c.rng.chance(1, 3);
    let t = Duration::from_millis(c.rng.range(15, 60) as u64);
    let addr = server.local_addr().unwrap();
    c.note = format!("silent server, async {is_async}, timeout {t:?}, {}", c.note);
    let call = net::call("resolution", move || {
        let mut r = Resolver::new(is_async, addr)?;
        r.set_timeout(t);
        let start = Instant::now();
        let r = r.resolve(&How::Str("host.local".into()));
        Ok::<_, io::Error>((r, start.elapsed()))
    });
    let (r, took) = call.wait()?.map_err(|e| format!("resolver cannot be created: {e}"))?;
    ensure!(
        r.as_ref().is_err_and(|e| matches!(e.kind(), io::ErrorKind::TimedOut | io::ErrorKind::WouldBlock)),
        "gave {r:?} although nothing happened but signals"
    );
    ensure!(
        took + Duration::from_millis(8) >= t,
        "timed out after {took:?}, before the timeout of {t:?}"
    );
    c.count("silent_resolutions", 1);
    Ok(())
}

/// Answers that come late, after very many signals.
fn late(c: &mut Case<'_>) -> Verdict {
    net::pin();
    let server = net::udp(false);
    let is_async = c.rng.chance(1, 3);
    let addr = server.local_addr().unwrap();
    let n = c.rng.range(1, 60_000) as u32;
    let op = c.rng.below(4);
    let delay = Duration::from_millis(c.rng.range(20, 80) as u64);
    c.note = format!("answered after {delay:?}, async {is_async}, operation {op}, {}", c.note);
    let mut client = faults::Client::new(op, is_async, addr).map_err(|e| format!("client cannot be created: {e}"))?;
    client.timeout(Duration::from_secs(9), Duration::from_secs(18));
    let mut call = net::call("an operation", move || client.run(n));
    crate::props::soak::serve(&server, &mut call, |id, name| {
        std::thread::sleep(delay);
        faults::answer(op, n, id, name)
    })?;
    let (r, found) = call.wait()?;
    ensure!(
        r.is_ok() && faults::is_answer(op, n, &found),
        "gave {r:?} and {found:?} although the answer {n} was sent"
    );
    c.count("late_answers", 1);
    Ok(())
}

/// An advertiser that nobody asks for a while.
fn idle(c: &mut Case<'_>) -> Verdict {
    let is_async = c.rng.chance(1, 4);
    let regs = advertiser::random_regs(&mut c.rng);
    let delay = Duration::from_millis(c.rng.range(20, 80) as u64);
    c.note = format!("idle for {delay:?}, async {is_async}, {regs:?}, {}", c.note);
    let mut srv = sockets::Server::start(is_async, &regs);
    std::thread::sleep(delay);
    let s = net::udp(false);
    let to = (net::loopback(false), net::MDNS_PORT).into();
    sockets::ask_until_answered(&s, to, &sockets::host_question(&regs), &mut 1, &mut srv)?;
    srv.alive()?;
    c.count("idle_advertisers", 1);
    Ok(())
}

fn c29(c: &mut Case<'_>) -> Verdict {
    let period = Duration::from_micros(*c.rng.pick(&[50u64, 100, 300, 1000, 3000]));
    let kind = c.rng.below(14);
    let before = net::signals_sent();
    let idx = c.idx;
    // None of the special cases.
    c.idx += 10;
    // Each of the few may come at any point of the wait.
    let limit = if kind == 13 { c.rng.range(1, 5) as u64 } else { u64::MAX };
    let period = if kind == 13 { Duration::from_millis(c.rng.range(1, 12) as u64) } else { period };
    c.note = format!("a signal every {period:?}");
    net::fresh_network()?;
    let signals = Signals::every(period, limit);
    let (what, r) = match kind {
        0..=2 => ("resolutions", resolver::c13(c)),
        3 => ("instance_discoveries", discovery::c16(c)),
        4 => ("type_discoveries", discovery::c17(c)),
        5 | 6 => ("loads", discovery::c19(c)),
        7 | 8 => ("advertisers", sockets::c22(c)),
        9 => ("taps", tap::c23(c)),
        10 => ("silent", silent_discovery(c)),
        11 => ("late", late(c)),
        12 => ("idle", idle(c)),
        _ => ("silent", silent_resolution(c)),
    };
    drop(signals);
    c.idx = idx;
    c.note = format!("{what} with a signal every {period:?}: {}", c.note);
    match r {
        // A listed finding of the property this case belongs to, which reports it.
        Ok(()) | Err(Fail::Known { .. }) => {}
        Err(e) => return Err(e),
    }
    c.count(what, 1);
    // Those of all threads that run cases.
    let n = net::signals_sent() - before;
    c.count("signals", n.min(1000));
    let note = c.note.clone();
    c.nontrivial(hash_bytes(&idx.to_be_bytes()), || note);
    Ok(())
}
