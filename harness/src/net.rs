//! Scaffolding of the socket-level monitors: threads that run the code under test, and scripted
//! DNS servers. The server side of a case runs on its worker thread, which is pinned to one CPU so
//! that datagrams sent in order are delivered in order.

use crate::mon::{self, no_panic, Fail};
use crate::rng::Rng;
use std::cell::Cell;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, UdpSocket};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, TryRecvError};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

/// A call that is still blocked after this long, although everything it waits for has long
/// happened or expired, hangs.
pub const HANG: Duration = Duration::from_secs(40);

fn full_mask() -> libc::cpu_set_t {
    static MASK: OnceLock<libc::cpu_set_t> = OnceLock::new();
    *MASK.get_or_init(|| {
        // SAFETY: valid out pointer.
        unsafe {
            let mut m: libc::cpu_set_t = std::mem::zeroed();
            libc::sched_getaffinity(0, std::mem::size_of_val(&m), &mut m);
            m
        }
    })
}

thread_local! {
    static PINNED: Cell<bool> = const { Cell::new(false) };
}

/// Pins the calling thread to some CPU it may run on.
pub fn pin() {
    if PINNED.replace(true) {
        return;
    }
    let _ = full_mask();
    static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let m = full_mask();
    // SAFETY: masks are valid.
    unsafe {
        let cpus: Vec<usize> = (0..1024).filter(|&i| libc::CPU_ISSET(i, &m)).collect();
        if cpus.is_empty() {
            return;
        }
        let i = NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[i % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}

fn unpin() {
    let m = full_mask();
    // SAFETY: valid mask.
    unsafe {
        libc::sched_setaffinity(0, std::mem::size_of_val(&m), &m);
    }
}

/// A call into the library, running on a thread of its own.
pub struct Call<T> {
    rx: Receiver<Result<T, String>>,
    got: Option<Result<T, String>>,
    what: String,
    pub started: Instant,
}

pub fn call<T: Send + 'static>(what: &str, f: impl FnOnce() -> T + Send + 'static) -> Call<T> {
    let (tx, rx) = channel();
    let w = what.to_string();
    let period = SIGNALS.get();
    let started = Instant::now();
    std::thread::Builder::new()
        .name("call".into())
        .spawn(move || {
            unpin();
            let guard = mon::cpu_guard();
            let signals = period.map(Signalled::start);
            let r = no_panic(&w, f);
            drop(signals);
            drop(guard);
            let _ = tx.send(r);
        })
        .expect("harness: cannot spawn a thread");
    Call {
        rx,
        got: None,
        what: what.to_string(),
        started,
    }
}

impl<T> Call<T> {
    pub fn finished(&mut self) -> bool {
        if self.got.is_none() {
            match self.rx.try_recv() {
                Ok(r) => self.got = Some(r),
                Err(TryRecvError::Empty) => {}
                Err(TryRecvError::Disconnected) => {
                    return true; // reported by `wait`
                }
            }
        }
        self.got.is_some()
    }

    /// The result, once `finished`.
    pub fn result(&self) -> Option<&Result<T, String>> {
        self.got.as_ref()
    }

    pub fn wait(mut self) -> Result<T, Fail> {
        if let Some(r) = self.got.take() {
            return r.map_err(Fail::Violation);
        }
        match self.rx.recv_timeout(HANG) {
            Ok(r) => r.map_err(Fail::Violation),
            Err(RecvTimeoutError::Timeout) => Err(Fail::Violation(format!(
                "{} is still blocked after {} s",
                self.what,
                HANG.as_secs()
            ))),
            // a panic of the harness itself
            Err(RecvTimeoutError::Disconnected) => {
                Err(Fail::Inconclusive(format!("{}: thread died", self.what)))
            }
        }
    }
}

thread_local! {
    static SIGNALS: Cell<Option<(Duration, u64)>> = const { Cell::new(None) };
}

/// While this exists, the calls that this thread starts are interrupted by signals, as they are in
/// a program that handles some.
pub struct Signals(());

impl Signals {
    /// At most `limit` for each call.
    pub fn every(period: Duration, limit: u64) -> Self {
        SIGNALS.set(Some((period, limit)));
        Self(())
    }
}

impl Drop for Signals {
    fn drop(&mut self) {
        SIGNALS.set(None);
    }
}

/// Threads that are sent signals: ID, period, how many are left, and when the next one is due.
static TARGETS: Mutex<Vec<(i32, Duration, u64, Instant)>> = Mutex::new(Vec::new());
static SENT: AtomicU64 = AtomicU64::new(0);

struct Signalled(i32);

impl Signalled {
    fn start((period, limit): (Duration, u64)) -> Self {
        static SENDER: std::sync::Once = std::sync::Once::new();
        SENDER.call_once(|| {
            std::thread::spawn(|| loop {
                let mut next = Instant::now() + Duration::from_millis(5);
                for (tid, period, left, due) in TARGETS.lock().unwrap().iter_mut() {
                    let now = Instant::now();
                    if *left == 0 {
                        continue;
                    }
                    if *due <= now {
                        *left -= 1;
                        interrupt(*tid);
                        SENT.fetch_add(1, Ordering::Relaxed);
                        *due = now + *period;
                    }
                    next = next.min(*due);
                }
                std::thread::sleep(next.saturating_duration_since(Instant::now()).max(Duration::from_micros(30)));
            });
        });
        let tid = thread_id();
        TARGETS.lock().unwrap().push((tid, period, limit, Instant::now() + period));
        Self(tid)
    }
}

impl Drop for Signalled {
    fn drop(&mut self) {
        TARGETS.lock().unwrap().retain(|t| t.0 != self.0);
    }
}

/// Signals sent so far.
pub fn signals_sent() -> u64 {
    SENT.load(Ordering::Relaxed)
}

/// How late a plain socket timeout of this length is at the moment, on a thread of its own.
pub struct Control(Receiver<Duration>);

impl Control {
    pub fn start(d: Duration) -> Self {
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            unpin();
            let s = udp(false);
            s.set_read_timeout(Some(d)).unwrap();
            let t = Instant::now();
            let _ = s.recv_from(&mut [0; 1]);
            let _ = tx.send(t.elapsed().saturating_sub(d));
        });
        Self(rx)
    }
    pub fn lateness(self) -> Duration {
        self.0.recv_timeout(HANG).unwrap_or(HANG)
    }
}

/// Executions in a row that have to be late, each while a control timer is on time.
pub const LATE_RUNS: usize = 7;

pub fn loopback(v6: bool) -> IpAddr {
    if v6 {
        Ipv6Addr::LOCALHOST.into()
    } else {
        Ipv4Addr::LOCALHOST.into()
    }
}

pub fn have_v6() -> bool {
    static V6: OnceLock<bool> = OnceLock::new();
    *V6.get_or_init(|| UdpSocket::bind((Ipv6Addr::LOCALHOST, 0)).is_ok())
}

pub fn udp(v6: bool) -> UdpSocket {
    let s = UdpSocket::bind((loopback(v6), 0)).expect("harness: cannot bind a UDP socket");
    s.set_read_timeout(Some(Duration::from_millis(20))).unwrap();
    s
}

/// Receives a datagram; a signal does not end the wait.
pub fn recv(s: &UdpSocket, b: &mut [u8]) -> std::io::Result<(usize, SocketAddr)> {
    loop {
        match s.recv_from(b) {
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            r => return r,
        }
    }
}

/// Waits for a datagram, as long as `call` runs (and a little longer).
pub fn recv_during<T>(s: &UdpSocket, call: &mut Call<T>) -> Option<(Vec<u8>, SocketAddr)> {
    let t = Instant::now();
    loop {
        let over = call.finished() || t.elapsed() > HANG;
        let mut b = [0; 9100];
        match s.recv_from(&mut b) {
            Ok((n, a)) => return Some((b[..n].to_vec(), a)),
            Err(e)
                if matches!(
                    e.kind(),
                    std::io::ErrorKind::WouldBlock
                        | std::io::ErrorKind::TimedOut
                        | std::io::ErrorKind::Interrupted
                ) => {}
            Err(e) => panic!("harness: recv failed: {e}"),
        }
        if over {
            return None;
        }
    }
}

/// Like [`recv_during`]; also how far the datagram could have gone (its time to live or hop limit).
pub fn recv_with_ttl<T>(s: &UdpSocket, call: &mut Call<T>) -> Option<(Vec<u8>, SocketAddr, Option<i32>)> {
    use std::os::fd::AsRawFd;
    let on = 1i32;
    for (level, option) in [(libc::IPPROTO_IP, libc::IP_RECVTTL), (libc::IPPROTO_IPV6, libc::IPV6_RECVHOPLIMIT)] {
        // SAFETY: the option is an int. (One of the two does not apply, which does no harm.)
        unsafe { libc::setsockopt(s.as_raw_fd(), level, option, (&raw const on).cast(), 4) };
    }
    let t = Instant::now();
    loop {
        let over = call.finished() || t.elapsed() > HANG;
        let mut b = [0u8; 9100];
        let mut control = [0u64; 16];
        let mut iov = libc::iovec { iov_base: b.as_mut_ptr().cast(), iov_len: b.len() };
        // SAFETY: `sockaddr_storage` and `msghdr` are plain data; all pointers are to live locals, and
        // the control messages are read as the kernel wrote them.
        unsafe {
            let mut from: libc::sockaddr_storage = std::mem::zeroed();
            let mut m: libc::msghdr = std::mem::zeroed();
            m.msg_name = (&raw mut from).cast();
            m.msg_namelen = std::mem::size_of_val(&from) as u32;
            m.msg_iov = &raw mut iov;
            m.msg_iovlen = 1;
            m.msg_control = control.as_mut_ptr().cast();
            m.msg_controllen = std::mem::size_of_val(&control);
            let n = libc::recvmsg(s.as_raw_fd(), &raw mut m, 0);
            if n >= 0 {
                let addr = socket2::SockAddr::new(from, m.msg_namelen).as_socket().expect("harness: address");
                let mut ttl = None;
                let mut h = libc::CMSG_FIRSTHDR(&raw const m);
                while !h.is_null() {
                    if matches!(
                        ((*h).cmsg_level, (*h).cmsg_type),
                        (libc::IPPROTO_IP, libc::IP_TTL) | (libc::IPPROTO_IPV6, libc::IPV6_HOPLIMIT)
                    ) {
                        ttl = Some(libc::CMSG_DATA(h).cast::<i32>().read_unaligned());
                    }
                    h = libc::CMSG_NXTHDR(&raw const m, h);
                }
                return Some((b[..n as usize].to_vec(), addr, ttl));
            }
        }
        let e = std::io::Error::last_os_error();
        assert!(
            matches!(
                e.kind(),
                std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut | std::io::ErrorKind::Interrupted
            ),
            "harness: recvmsg failed: {e}"
        );
        if over {
            return None;
        }
    }
}

/// Everything already queued on `s`.
pub fn drain(s: &UdpSocket) -> Vec<Vec<u8>> {
    s.set_nonblocking(true).unwrap();
    let mut v = vec![];
    let mut b = [0; 9100];
    while let Ok((n, _)) = recv(s, &mut b) {
        v.push(b[..n].to_vec());
    }
    s.set_nonblocking(false).unwrap();
    v
}

pub fn send(s: &UdpSocket, b: &[u8], to: SocketAddr) {
    s.send_to(b, to).expect("harness: cannot send");
}

// ------------------------------------------------------------------------- network namespaces

/// Gives the process a user namespace of its own, in which it may create network namespaces.
/// To be called before any thread is started.
pub fn enter_user_namespace() -> Result<(), String> {
    // SAFETY: plain system calls.
    let (uid, gid) = unsafe { (libc::geteuid(), libc::getegid()) };
    // SAFETY: the process has one thread.
    if unsafe { libc::unshare(libc::CLONE_NEWUSER | libc::CLONE_NEWNET) } != 0 {
        return Err(format!("unshare: {}", std::io::Error::last_os_error()));
    }
    let write = |f: &str, t: String| {
        std::fs::write(format!("/proc/self/{f}"), t).map_err(|e| format!("{f}: {e}"))
    };
    write("setgroups", "deny".into())?;
    write("uid_map", format!("0 {uid} 1"))?;
    write("gid_map", format!("0 {gid} 1"))
}

#[repr(C)]
struct IfReq {
    name: [u8; 16],
    flags: i16,
    pad: [u8; 22],
}

/// Puts the calling thread (and those it starts from now on) into a fresh network namespace that
/// consists of a loopback interface with a route for multicast.
pub fn fresh_network() -> Result<(), Fail> {
    empty_network()?;
    set_loopback(true)?;
    // What the library is about to do has to be possible.
    probe().map(drop).map_err(|e| Fail::Inconclusive(format!("no private network: {e}")))
}

/// Puts the calling thread (and those it starts from now on) into a network namespace in which
/// everything is down.
pub fn empty_network() -> Result<(), Fail> {
    // SAFETY: plain system call.
    match unsafe { libc::unshare(libc::CLONE_NEWNET) } {
        0 => Ok(()),
        _ => Err(Fail::Inconclusive(format!("no private network: unshare: {}", std::io::Error::last_os_error()))),
    }
}

/// Takes the loopback interface of the thread's private network, and the route for multicast that
/// goes with it, up or down.
pub fn set_loopback(up: bool) -> Result<(), Fail> {
    fn go(up: bool) -> Result<(), String> {
        let os = |what: &str| format!("{what}: {}", std::io::Error::last_os_error());
        // SAFETY: system calls with valid pointers to properly sized structures.
        unsafe {
            let s = UdpSocketFd(libc::socket(libc::AF_INET, libc::SOCK_DGRAM | libc::SOCK_CLOEXEC, 0));
            if s.0 < 0 {
                return Err(os("socket"));
            }
            let flags = if up { libc::IFF_UP | libc::IFF_RUNNING } else { 0 };
            let mut r = IfReq {
                name: [0; 16],
                flags: (flags | libc::IFF_MULTICAST | libc::IFF_LOOPBACK) as i16,
                pad: [0; 22],
            };
            r.name[..2].copy_from_slice(b"lo");
            if libc::ioctl(s.0, libc::SIOCSIFFLAGS as _, &mut r) != 0 {
                return Err(os("SIOCSIFFLAGS"));
            }
            if !up {
                return Ok(());
            }
            let addr = |a: [u8; 4]| -> libc::sockaddr {
                let mut x: libc::sockaddr_in = std::mem::zeroed();
                x.sin_family = libc::AF_INET as _;
                x.sin_addr.s_addr = u32::from_ne_bytes(a);
                std::mem::transmute(x)
            };
            let mut dev = *b"lo\0";
            let mut rt: libc::rtentry = std::mem::zeroed();
            rt.rt_dst = addr([224, 0, 0, 0]);
            rt.rt_genmask = addr([240, 0, 0, 0]);
            rt.rt_flags = 1; // RTF_UP
            rt.rt_dev = dev.as_mut_ptr().cast();
            if libc::ioctl(s.0, libc::SIOCADDRT as _, &mut rt) != 0 {
                return Err(os("SIOCADDRT"));
            }
        }
        Ok(())
    }
    go(up).map_err(|e| Fail::Inconclusive(format!("no private network: {e}")))
}

/// An address for which there is a route only while `set_routed` says so.
pub const ROUTED: Ipv4Addr = Ipv4Addr::new(203, 0, 113, 7);

/// Adds `ROUTED` to the addresses of the private network, or takes it away: sending to it fails,
/// then.
pub fn set_routed(there: bool) -> Result<(), Fail> {
    // SAFETY: system calls with valid pointers to properly sized structures.
    let ok = unsafe {
        let s = UdpSocketFd(libc::socket(libc::AF_INET, libc::SOCK_DGRAM | libc::SOCK_CLOEXEC, 0));
        let mut r = IfReq { name: [0; 16], flags: 0, pad: [0; 22] };
        r.name[..4].copy_from_slice(b"lo:1");
        if there {
            // a sockaddr_in follows the name
            r.flags = libc::AF_INET as i16;
            r.pad[2..6].copy_from_slice(&ROUTED.octets());
            libc::ioctl(s.0, libc::SIOCSIFADDR as _, &mut r) == 0
        } else {
            libc::ioctl(s.0, libc::SIOCSIFFLAGS as _, &mut r) == 0
        }
    };
    if ok {
        Ok(())
    } else {
        Err(Fail::Inconclusive(format!("no private network: address: {}", std::io::Error::last_os_error())))
    }
}

/// A socket like those of the advertisers. It shares its port, because a process that is just being
/// started may hold it for a moment longer.
fn probe() -> Result<UdpSocket, String> {
    let s = socket2::Socket::new(socket2::Domain::IPV4, socket2::Type::DGRAM, None).map_err(|e| format!("socket: {e}"))?;
    s.set_reuse_address(true).map_err(|e| format!("option: {e}"))?;
    s.bind(&SocketAddr::from((Ipv4Addr::UNSPECIFIED, MDNS_PORT)).into()).map_err(|e| format!("bind: {e}"))?;
    let s = UdpSocket::from(s);
    s.join_multicast_v4(&GROUP, &Ipv4Addr::UNSPECIFIED).map_err(|e| format!("join: {e}"))?;
    Ok(s)
}

/// A fresh network for the calling thread, which now and then is linked to another one.
pub fn sometimes_linked(c: &mut crate::mon::Case<'_>) -> Result<Option<Other>, Fail> {
    if c.rng.chance(1, 10) {
        if let Ok(o) = linked_networks(&mut c.rng) {
            c.count("linked_networks", 1);
            return Ok(Some(o));
        }
        c.count("no_linked_networks", 1);
    }
    fresh_network()?;
    Ok(None)
}

/// The network at the other end of a cable.
pub struct Other(std::fs::File, [u8; 3]);

/// Puts the calling thread into a fresh network whose only link, with the route for multicast,
/// leads to another fresh network. `Err` if there is no way to set that up here.
pub fn linked_networks(rng: &mut Rng) -> Result<Other, String> {
    let subnet = *rng.pick(&[[10, 77, 0], [192, 168, 77], [20, 1, 77], [169, 254, 77]]);
    let here = || std::fs::File::open("/proc/thread-self/ns/net").map_err(|e| format!("namespace: {e}"));
    let fresh = || {
        // SAFETY: plain system call.
        match unsafe { libc::unshare(libc::CLONE_NEWNET) } {
            0 => here(),
            _ => Err(format!("unshare: {}", std::io::Error::last_os_error())),
        }
    };
    let ip = |args: &str| {
        let o = std::process::Command::new("ip")
            .args(args.split(' '))
            .output()
            .map_err(|e| format!("ip: {e}"))?;
        if o.status.success() {
            Ok(())
        } else {
            Err(format!("ip {args}: {}", String::from_utf8_lossy(&o.stderr)))
        }
    };
    let configure = |dev: &str, n: u8| {
        ip("link set lo up")?;
        let [a, b, c] = subnet;
        ip(&format!("addr add {a}.{b}.{c}.{n}/24 dev {dev}"))?;
        ip(&format!("link set {dev} up"))?;
        ip(&format!("route add 224.0.0.0/4 dev {dev}"))
    };
    let other = fresh()?;
    // A thread over there, for `ip` to name that network by.
    let (tx, rx) = channel();
    let (stop, stopped) = channel::<()>();
    let t = std::thread::spawn(move || {
        let _ = tx.send(thread_id());
        let _ = stopped.recv();
    });
    let near = fresh().and_then(|near| {
        let tid = rx.recv().map_err(|e| e.to_string())?;
        ip(&format!("link add near type veth peer name far netns {tid}"))?;
        Ok(near)
    });
    drop(stop);
    let _ = t.join();
    let (near, other) = (Other(near?, subnet), Other(other, subnet));
    other.enter()?;
    configure("far", 2)?;
    near.enter()?;
    configure("near", 1)?;
    // The link has to have come up.
    let s = probe()?;
    s.set_read_timeout(Some(Duration::from_millis(20))).map_err(|e| e.to_string())?;
    other.enter()?;
    let c = UdpSocket::bind("0.0.0.0:0").map_err(|e| format!("bind: {e}"));
    near.enter()?;
    let c = c?;
    for _ in 0..100 {
        c.send_to(b"up?", (GROUP, MDNS_PORT)).map_err(|e| format!("send: {e}"))?;
        if s.recv_from(&mut [0; 8]).is_ok() {
            return Ok(other);
        }
    }
    Err("nothing gets across".into())
}

impl Other {
    /// The address of the network the thread was put into.
    pub fn near(&self) -> Ipv4Addr {
        let [a, b, c] = self.1;
        Ipv4Addr::new(a, b, c, 1)
    }

    /// The address of this one.
    pub fn far(&self) -> Ipv4Addr {
        let [a, b, c] = self.1;
        Ipv4Addr::new(a, b, c, 2)
    }

    /// Moves the calling thread (and those it starts from now on) over there.
    pub fn enter(&self) -> Result<(), String> {
        use std::os::fd::AsRawFd;
        // SAFETY: plain system call on a descriptor that is open.
        match unsafe { libc::setns(self.0.as_raw_fd(), libc::CLONE_NEWNET) } {
            0 => Ok(()),
            _ => Err(format!("setns: {}", std::io::Error::last_os_error())),
        }
    }
}

struct UdpSocketFd(i32);
impl Drop for UdpSocketFd {
    fn drop(&mut self) {
        // SAFETY: own descriptor.
        unsafe { libc::close(self.0) };
    }
}

/// A network of its own for the calling thread with one link, on which IPv4 and IPv6 multicast works and
/// which has a few addresses, private, public and link-local. Its index; `Err` if there is no way to set
/// that up here.
pub fn multicast_link() -> Result<u32, String> {
    use std::io::Write;
    // SAFETY: plain system call.
    if unsafe { libc::unshare(libc::CLONE_NEWNET) } != 0 {
        return Err(format!("unshare: {}", std::io::Error::last_os_error()));
    }
    let mut script = String::from("link set lo up\nlink add here type veth peer name there\n");
    script += "link set here addrgenmode none\nlink set there addrgenmode none\nlink set there up\nlink set here up\n";
    // What is good on one link only may exist on another, too.
    script += "addr add fe80::77:1/64 dev there nodad\n";
    for k in 1..=LINK_HOSTS {
        script += &format!("addr add {}/24 dev here\n", link_host(false, k));
        script += &format!("addr add {}/64 dev here nodad\n", link_host(true, k));
        script += &format!("addr add fe80::77:{k}/64 dev here nodad\n");
    }
    script += "route add 224.0.0.0/4 dev here\nroute add multicast ff02::/16 dev here table local\n";
    let mut p = std::process::Command::new("ip")
        .args(["-batch", "-"])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .map_err(|e| format!("ip: {e}"))?;
    p.stdin.take().unwrap().write_all(script.as_bytes()).map_err(|e| format!("ip: {e}"))?;
    let o = p.wait_with_output().map_err(|e| format!("ip: {e}"))?;
    if !o.status.success() {
        return Err(format!("ip: {}", String::from_utf8_lossy(&o.stderr)));
    }
    // SAFETY: a C string.
    let link = match unsafe { libc::if_nametoindex(c"here".as_ptr()) } {
        0 => return Err("the link has no index".into()),
        n => n,
    };
    // Until both ends know of each other, and the kernel of all the addresses, packets get lost.
    let t = Instant::now();
    let late = || t.elapsed() > Duration::from_secs(5);
    while !(running(b"here") && running(b"there")) {
        if late() {
            return Err("the link does not come up".into());
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    for k in 1..=LINK_HOSTS {
        for a in [link_local(k, link), (link_host(true, k), MDNS_PORT).into(), (link_host(false, k), MDNS_PORT).into()] {
            let s = shared(a)?;
            s.set_read_timeout(Some(Duration::from_millis(4))).map_err(|e| format!("option: {e}"))?;
            while s.send_to(b"up?", a).is_err() || s.recv_from(&mut [0; 8]).is_err() {
                if late() {
                    return Err(format!("{a} cannot be reached"));
                }
            }
        }
    }
    Ok(link)
}

fn running(name: &[u8]) -> bool {
    let mut r = IfReq { name: [0; 16], flags: 0, pad: [0; 22] };
    r.name[..name.len()].copy_from_slice(name);
    // SAFETY: system calls with valid pointers to properly sized structures.
    unsafe {
        let s = UdpSocketFd(libc::socket(libc::AF_INET, libc::SOCK_DGRAM | libc::SOCK_CLOEXEC, 0));
        libc::ioctl(s.0, libc::SIOCGIFFLAGS as _, &mut r) == 0 && i32::from(r.flags) & libc::IFF_RUNNING != 0
    }
}

pub const LINK_HOSTS: u16 = 4;

/// Address `k` of the link that is good on this link only.
pub fn link_local(k: u16, link: u32) -> SocketAddr {
    let ip = std::net::Ipv6Addr::new(0xfe80, 0, 0, 0, 0, 0, 0x77, k);
    std::net::SocketAddrV6::new(ip, MDNS_PORT, 0, link).into()
}

/// Address `k` of the link.
pub fn link_host(v6: bool, k: u16) -> IpAddr {
    if v6 {
        let net = if k <= 2 { 0xfd77 } else { 0x2a01 };
        std::net::Ipv6Addr::new(net, 0x77, 0, 0, 0, 0, 0, k).into()
    } else {
        let [a, b, c] = [[10, 77, 1], [10, 77, 1], [20, 1, 77], [169, 254, 77]][usize::from(k - 1)];
        Ipv4Addr::new(a, b, c, k as u8).into()
    }
}

pub const GROUP6: std::net::Ipv6Addr = std::net::Ipv6Addr::new(0xff02, 0, 0, 0, 0, 0, 0, 0xfb);

/// A socket that is bound to this address alone, which others may be bound to, too.
pub fn shared(addr: SocketAddr) -> Result<UdpSocket, String> {
    let d = if addr.is_ipv6() { socket2::Domain::IPV6 } else { socket2::Domain::IPV4 };
    let s = socket2::Socket::new(d, socket2::Type::DGRAM, None).map_err(|e| format!("socket: {e}"))?;
    s.set_reuse_address(true).map_err(|e| format!("option: {e}"))?;
    s.bind(&addr.into()).map_err(|e| format!("bind {addr}: {e}"))?;
    let s = UdpSocket::from(s);
    s.set_read_timeout(Some(Duration::from_millis(20))).map_err(|e| format!("option: {e}"))?;
    Ok(s)
}

/// A socket that gets what is sent to the mDNS group, and nothing else.
pub fn group_socket(v6: bool, link: u32) -> Result<UdpSocket, String> {
    if v6 {
        let s = shared(std::net::SocketAddrV6::new(GROUP6, MDNS_PORT, 0, link).into())?;
        s.join_multicast_v6(&GROUP6, link).map_err(|e| format!("join: {e}"))?;
        Ok(s)
    } else {
        let s = shared((GROUP, MDNS_PORT).into())?;
        s.join_multicast_v4(&GROUP, &Ipv4Addr::UNSPECIFIED).map_err(|e| format!("join: {e}"))?;
        Ok(s)
    }
}

pub const GROUP: Ipv4Addr = Ipv4Addr::new(224, 0, 0, 251);
pub const MDNS_PORT: u16 = 5353;

/// Sends an IPv4/UDP datagram with a made-up source address.
pub fn send_spoofed(from: Ipv4Addr, port: u16, to: Ipv4Addr, payload: &[u8]) -> Result<(), String> {
    let len = 28 + payload.len();
    let mut p = vec![0x45, 0, 0, 0, 0, 1, 0, 0, 64, 17, 0, 0];
    p[2..4].copy_from_slice(&(len as u16).to_be_bytes());
    p.extend(from.octets());
    p.extend(to.octets());
    p.extend(port.to_be_bytes());
    p.extend(MDNS_PORT.to_be_bytes());
    p.extend(((len - 20) as u16).to_be_bytes());
    p.extend([0, 0]);
    p.extend(payload);
    let s = socket2::Socket::new(
        socket2::Domain::IPV4,
        socket2::Type::from(libc::SOCK_RAW),
        Some(socket2::Protocol::from(libc::IPPROTO_RAW)),
    )
    .map_err(|e| format!("raw socket: {e}"))?;
    let to = SocketAddr::from((to, 0));
    s.send_to(&p, &to.into()).map_err(|e| format!("raw send: {e}"))?;
    Ok(())
}

/// Receives a datagram, waiting for up to `wait`.
pub fn recv_for(s: &UdpSocket, wait: Duration) -> Option<(Vec<u8>, SocketAddr)> {
    let t = Instant::now();
    loop {
        let left = wait.saturating_sub(t.elapsed()).max(Duration::from_millis(1));
        s.set_read_timeout(Some(left)).unwrap();
        let mut b = [0; 9100];
        match s.recv_from(&mut b) {
            Ok((n, a)) => return Some((b[..n].to_vec(), a)),
            Err(e)
                if matches!(
                    e.kind(),
                    std::io::ErrorKind::WouldBlock
                        | std::io::ErrorKind::TimedOut
                        | std::io::ErrorKind::Interrupted
                ) => {}
            Err(e) => panic!("harness: recv failed: {e}"),
        }
        if t.elapsed() >= wait {
            return None;
        }
    }
}

pub fn thread_id() -> i32 {
    // SAFETY: plain system call.
    unsafe { libc::syscall(libc::SYS_gettid) as i32 }
}

/// Interrupts a system call that a thread of this process is blocked in.
pub fn interrupt(tid: i32) {
    extern "C" fn nothing(_: i32) {}
    static INSTALL: std::sync::Once = std::sync::Once::new();
    INSTALL.call_once(|| {
        // SAFETY: valid structure; the handler does nothing. No SA_RESTART.
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            let f: extern "C" fn(i32) = nothing;
            a.sa_sigaction = f as usize;
            libc::sigaction(libc::SIGUSR1, &a, std::ptr::null_mut());
        }
    });
    // SAFETY: plain system call; if the thread is gone, it fails.
    unsafe {
        libc::syscall(libc::SYS_tgkill, libc::getpid(), tid, libc::SIGUSR1);
    }
}

/// The descriptor that a thread of this process is waiting for data on, in one of the calls that
/// receive from a socket.
fn waiting_on(tid: i32) -> Option<i32> {
    let t = std::fs::read_to_string(format!("/proc/self/task/{tid}/syscall")).ok()?;
    let mut w = t.split_whitespace();
    let nr: i64 = w.next()?.parse().ok()?;
    if ![libc::SYS_recvfrom, libc::SYS_recvmsg, libc::SYS_read].contains(&nr) {
        return None;
    }
    let fd = w.next()?;
    let fd = i32::from_str_radix(fd.strip_prefix("0x")?, 16).ok()?;
    std::fs::read_link(format!("/proc/self/fd/{fd}"))
        .ok()?
        .to_str()?
        .starts_with("socket:")
        .then_some(fd)
}

/// Makes a thread that blocks in a loop around a socket, which nothing else can end, fail: swaps
/// its socket for something that is none, and interrupts it. `ended` says whether it is gone.
pub fn end_listener(tid: i32, mut ended: impl FnMut() -> bool) -> bool {
    let mut taken = false;
    for i in 0..200 {
        if ended() {
            return true;
        }
        if !taken {
            if let Some(fd) = waiting_on(tid) {
                // SAFETY: plain system calls on descriptors of this process. The listener owns
                // `fd` and closes it when it returns.
                unsafe {
                    let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC);
                    if null >= 0 {
                        taken = libc::dup3(null, fd, libc::O_CLOEXEC) >= 0;
                        libc::close(null);
                    }
                }
            }
        }
        // An interrupted call may be repeated (and fails then), or make it return.
        interrupt(tid);
        std::thread::sleep(Duration::from_micros(if i < 20 { 30 } else { 300 }));
    }
    ended()
}
