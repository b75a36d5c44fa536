//! PostgreSQL connections (C17, and C21 in mig.rs): real butane, tokio and tokio-postgres over a simulated network.
//! The server is a real PostgreSQL that is driven in lock step: a request reaches it as a whole, over a connection of the
//! harness's own, and simulated time stands still until it has answered. When bytes travel, in which pieces, and when a
//! connection is lost, the simulation decides.
use std::collections::VecDeque;
use std::ffi::{c_int, c_void};
use std::os::unix::process::CommandExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::OnceLock;

use butane::db::{BackendConnection, BackendConnectionAsync, ConnectionSpec};

use crate::asy;
use crate::cn::Conn;
use crate::mig::Act;
use crate::core::{new_proc, set_proc, sim, Fault};
use crate::os::{raw6, ret, RawMutex};
use crate::pred::{tys, Ty};
use crate::refdb::{RefDb, Row, MANYS, TABLES, V};
use crate::slog;
use crate::solo::{self, now, Cfg};
use crate::store::{me_dead, violated, St};
use Fault::*;

// ---------------------------------------------------------------- the server

pub struct Server {
    dir: PathBuf,
    child: Child,
}
impl Drop for Server {
    fn drop(&mut self) {
        unsafe { libc::kill(self.child.id() as i32, libc::SIGQUIT) };
        let _ = self.child.wait();
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
/// Start a temporary server on a Unix socket, and name its directory in the environment.
pub fn start() -> Option<Server> {
    if std::env::var_os("DST_PG").is_some() {
        return None;
    }
    let bin = std::fs::read_dir("/usr/lib/postgresql")
        .expect("PostgreSQL is not installed")
        .filter_map(|e| Some(e.ok()?.path().join("bin")))
        .filter(|p| p.join("postgres").exists())
        .max()
        .expect("PostgreSQL is not installed");
    let dir = std::env::temp_dir().join(format!("dst-pg.{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let user = std::fs::read_to_string("/etc/passwd").unwrap_or_default().lines().find_map(|l| {
        let mut f = l.split(':');
        (f.next()? == "postgres").then_some(())?;
        Some((f.nth(1)?.parse::<u32>().ok()?, f.next()?.parse::<u32>().ok()?))
    });
    let root = unsafe { libc::geteuid() } == 0;
    let run = |name: &str| {
        let mut c = Command::new(bin.join(name));
        c.current_dir(&dir).env("HOME", &dir).env_remove("LC_ALL").env("LANG", "C").stdin(Stdio::null());
        if root {
            let (u, g) = user.expect("no user named postgres");
            std::os::unix::fs::chown(&dir, Some(u), Some(g)).unwrap();
            c.uid(u).gid(g);
        }
        unsafe {
            c.pre_exec(|| {
                libc::setgroups(0, std::ptr::null());
                Ok(())
            })
        };
        c
    };
    let data = dir.join("data");
    let o = run("initdb")
        .args(["-U", "postgres", "-E", "UTF8", "--locale=C", "-A", "trust", "--no-sync", "-D"])
        .arg(&data)
        .output()
        .expect("initdb");
    assert!(o.status.success(), "initdb: {}", String::from_utf8_lossy(&o.stderr));
    let log = std::fs::File::create(dir.join("log")).unwrap();
    let mut c = run("postgres");
    c.arg("-D").arg(&data).arg("-k").arg(&dir).args(["-h", ""]);
    for s in ["fsync=off", "synchronous_commit=off", "full_page_writes=off", "autovacuum=off", "max_connections=200",
        "lock_timeout=8s", "max_wal_size=256MB", "wal_level=minimal", "max_wal_senders=0", "jit=off", "shared_buffers=64MB",
        "logging_collector=off", "lc_messages=C", "timezone=UTC", "dynamic_shared_memory_type=posix", "max_parallel_workers=0"]
    {
        c.args(["-c", s]);
    }
    unsafe {
        c.pre_exec(|| {
            // the server does not outlive the check
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGQUIT);
            Ok(())
        })
    };
    let child = c.stdout(Stdio::null()).stderr(log).spawn().expect("postgres");
    let s = Server { dir: dir.clone(), child };
    std::env::set_var("DST_PG", &dir);
    for i in 0..600 {
        if Raw::try_open("postgres").is_some() {
            return Some(s);
        }
        assert!(i < 599, "the server does not start: {}", std::fs::read_to_string(dir.join("log")).unwrap_or_default());
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
    Some(s)
}
fn socket() -> PathBuf {
    Path::new(&std::env::var_os("DST_PG").expect("no server")).join(".s.PGSQL.5432")
}

/// A connection to the real server: blocking, below everything the simulation intercepts.
pub struct Raw {
    fd: c_int,
    /// ReadyForQuery's status
    pub status: u8,
}
unsafe fn unix_addr(p: &Path) -> libc::sockaddr_un {
    let mut a: libc::sockaddr_un = std::mem::zeroed();
    a.sun_family = libc::AF_UNIX as u16;
    for (d, s) in a.sun_path.iter_mut().zip(p.to_str().unwrap().bytes()) {
        *d = s as _;
    }
    a
}
fn message(kind: u8, body: &[u8]) -> Vec<u8> {
    let mut m = vec![kind];
    m.extend((body.len() as u32 + 4).to_be_bytes());
    m.extend(body);
    m
}
impl Raw {
    fn try_open(db: &str) -> Option<Raw> {
        unsafe {
            let fd = libc::socket(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
            let a = unix_addr(&socket());
            let tv = libc::timeval { tv_sec: 30, tv_usec: 0 };
            libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_RCVTIMEO, &tv as *const _ as *const c_void, 16);
            let r = raw6(libc::SYS_connect, fd as usize, &a as *const _ as usize, std::mem::size_of_val(&a), 0, 0, 0);
            let mut c = Raw { fd, status: 0 };
            if r < 0 {
                return None;
            }
            let mut b = 196608u32.to_be_bytes().to_vec();
            b.extend(format!("user\0postgres\0database\0{db}\0\0").bytes());
            let mut m = (b.len() as u32 + 4).to_be_bytes().to_vec();
            m.extend(b);
            c.send(&m);
            c.answer()?;
            Some(c)
        }
    }
    fn open(db: &str) -> Raw {
        Raw::try_open(db).expect("connection to the real server")
    }
    fn send(&self, mut b: &[u8]) {
        while !b.is_empty() {
            let r = unsafe {
                raw6(libc::SYS_sendto, self.fd as usize, b.as_ptr() as usize, b.len(), libc::MSG_NOSIGNAL as usize, 0, 0)
            };
            assert!(r > 0, "the real server is gone ({r})");
            b = &b[r as usize..];
        }
    }
    /// All messages up to and including ReadyForQuery.
    fn answer(&mut self) -> Option<Vec<u8>> {
        let mut got: Vec<u8> = vec![];
        let mut at = 0;
        loop {
            while got.len() >= at + 5 {
                let n = u32::from_be_bytes(got[at + 1..at + 5].try_into().unwrap()) as usize;
                if got.len() < at + 1 + n {
                    break;
                }
                if got[at] == b'Z' {
                    self.status = got[at + 5];
                    return Some(got);
                }
                at += 1 + n;
            }
            let mut buf = [0u8; 65536];
            let r = unsafe { raw6(libc::SYS_recvfrom, self.fd as usize, buf.as_mut_ptr() as usize, buf.len(), 0, 0, 0) };
            if r == -(libc::EINTR as isize) {
                continue;
            }
            if r <= 0 {
                return None;
            }
            got.extend(&buf[..r as usize]);
        }
    }
    fn ask(&mut self, m: &[u8]) -> Vec<u8> {
        self.send(m);
        self.answer().expect("the real server does not answer")
    }
    /// A simple query; its rows per statement, or the first error.
    pub fn sql(&mut self, q: &str) -> Result<Vec<Vec<Vec<Option<String>>>>, String> {
        let mut b = q.as_bytes().to_vec();
        b.push(0);
        let r = self.ask(&message(b'Q', &b));
        let mut out = vec![vec![]];
        let mut err = None;
        for (k, m) in messages(&r) {
            match k {
                b'D' => {
                    let n = u16::from_be_bytes([m[0], m[1]]);
                    let mut at = 2;
                    let mut row = vec![];
                    for _ in 0..n {
                        let l = i32::from_be_bytes(m[at..at + 4].try_into().unwrap());
                        at += 4;
                        if l < 0 {
                            row.push(None);
                        } else {
                            row.push(Some(String::from_utf8_lossy(&m[at..at + l as usize]).to_string()));
                            at += l as usize;
                        }
                    }
                    out.last_mut().unwrap().push(row);
                }
                b'C' => out.push(vec![]),
                b'E' => err = err.or(Some(error_text(m))),
                _ => {}
            }
        }
        out.pop();
        match err {
            None => Ok(out),
            Some(e) => Err(e),
        }
    }
    fn run(&mut self, q: &str) {
        if let Err(e) = self.sql(q) {
            panic!("harness: {q}: {e}");
        }
    }
}
impl Drop for Raw {
    fn drop(&mut self) {
        unsafe { raw6(libc::SYS_close, self.fd as usize, 0, 0, 0, 0, 0) };
    }
}
fn messages(b: &[u8]) -> Vec<(u8, &[u8])> {
    let mut v = vec![];
    let mut at = 0;
    while b.len() >= at + 5 {
        let n = u32::from_be_bytes(b[at + 1..at + 5].try_into().unwrap()) as usize;
        if b.len() < at + 1 + n {
            break;
        }
        v.push((b[at], &b[at + 5..at + 1 + n]));
        at += 1 + n;
    }
    v
}
fn error_text(m: &[u8]) -> String {
    m.split(|c| *c == 0)
        .filter(|f| !f.is_empty() && (f[0] == b'M' || f[0] == b'C'))
        .map(|f| String::from_utf8_lossy(&f[1..]).to_string())
        .collect::<Vec<_>>()
        .join(" ")
}
fn error_message(severity: &str, code: &str, text: &str) -> Vec<u8> {
    message(b'E', format!("S{severity}\0V{severity}\0C{code}\0M{text}\0\0").as_bytes())
}

// ---------------------------------------------------------------- the network

struct Link {
    /// the server's end
    fd: c_int,
    /// on the way to the server, with the time of arrival
    up: VecDeque<(u64, Vec<u8>)>,
    /// arrived at the server
    inb: Vec<u8>,
    /// on the way to the client; an empty piece ends the connection
    down: VecDeque<(u64, Vec<u8>)>,
    greeted: bool,
    /// no further request is taken
    cut: bool,
    /// both directions are over
    closed: bool,
    /// by a fault
    lost: bool,
    /// the statement prepared last is a query
    query: bool,
    be: usize,
}
#[derive(Default)]
struct Net {
    on: bool,
    links: Vec<Link>,
    /// one per link that is open at the same time
    be: Vec<(Raw, bool)>,
    db: String,
    profile: u32,
    /// no connection is accepted before
    down_until: u64,
    rescued: bool,
}
static NET: RawMutex<Option<Net>> = RawMutex::new(None);
static ON: AtomicBool = AtomicBool::new(false);
pub fn on() -> bool {
    ON.load(Ordering::Relaxed)
}
pub const HOST: &str = "/simulated-postgres";
pub fn spec() -> ConnectionSpec {
    ConnectionSpec::new("pg", format!("host={HOST} user=postgres"))
}

/// The client connects: give it one end of a socket pair. None: not a simulated server's address.
pub unsafe fn connect(fd: c_int, addr: *const c_void, len: u32) -> Option<c_int> {
    if !on() || len < 3 {
        return None;
    }
    let a = std::slice::from_raw_parts(addr as *const u8, len as usize);
    if a[0] as c_int != libc::AF_UNIX || !a[2..].starts_with(HOST.as_bytes()) {
        return None;
    }
    let refuse = sim(|s| {
        s.log("connect");
        s.fault_here(&[CantOpen]).is_some()
    });
    let mut g = NET.lock();
    let net = g.as_mut().unwrap();
    let t = sim(|s| s.now_us);
    if refuse {
        match sim(|s| s.fault.below(3)) {
            // the server restarts
            0 => net.down_until = t + 1_000_000,
            // it accepts and then closes the connection
            k => {
                let f = pair(net, fd);
                let l = net.links.last_mut().unwrap();
                l.cut = true;
                l.lost = true;
                if k == 1 {
                    l.down.push_back((t + 10, error_message("FATAL", "57P03", "the database system is starting up")));
                }
                l.down.push_back((t + 20, vec![]));
                return Some(f);
            }
        }
    }
    if t < net.down_until {
        crate::os::set_errno(libc::ECONNREFUSED);
        return Some(-1);
    }
    Some(pair(net, fd))
}
unsafe fn pair(net: &mut Net, fd: c_int) -> c_int {
    let mut p = [0 as c_int; 2];
    if libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC | libc::SOCK_NONBLOCK, 0, p.as_mut_ptr()) != 0 {
        return -1;
    }
    let big: c_int = 4 << 20;
    for x in p {
        libc::setsockopt(x, libc::SOL_SOCKET, libc::SO_SNDBUF, &big as *const _ as *const c_void, 4);
    }
    libc::dup3(p[0], fd, libc::O_CLOEXEC);
    raw6(libc::SYS_close, p[0] as usize, 0, 0, 0, 0, 0);
    let be = match net.be.iter().position(|b| !b.1) {
        Some(i) => i,
        None => {
            net.be.push((Raw::open(&net.db), false));
            net.be.len() - 1
        }
    };
    net.be[be].1 = true;
    net.links.push(Link {
        fd: p[1],
        up: VecDeque::new(),
        inb: vec![],
        down: VecDeque::new(),
        greeted: false,
        cut: false,
        closed: false,
        lost: false,
        query: false,
        be,
    });
    0
}
impl Net {
    fn delay(&self) -> u64 {
        let p = self.profile;
        sim(|s| match p {
            0 => s.sched.below(40) as u64,
            1 => 50 + s.sched.below(950) as u64,
            2 => 1000 + s.sched.below(40_000) as u64,
            _ => s.sched.draw(5_000_000, |r| if r.chance(30) { r.below(5_000_000) } else { r.below(2000) }) as u64,
        })
    }
    /// The client is gone or its connection is lost: the server ends the session, rolling back what is open.
    fn hang_up(&mut self, i: usize) {
        let l = &mut self.links[i];
        l.cut = true;
        l.up.clear();
        l.inb.clear();
        if l.be == usize::MAX {
            return;
        }
        let be = std::mem::replace(&mut l.be, usize::MAX);
        let b = &mut self.be[be];
        b.1 = false;
        if b.0.status != b'I' {
            b.0.run("ROLLBACK");
        }
        b.0.run("DEALLOCATE ALL");
    }
    fn close(&mut self, i: usize) {
        self.hang_up(i);
        let l = &mut self.links[i];
        if !l.closed {
            l.closed = true;
            l.down.clear();
            unsafe { raw6(libc::SYS_close, l.fd as usize, 0, 0, 0, 0, 0) };
        }
    }
    /// Take what the clients have written.
    fn drain(&mut self, t: u64) {
        for i in 0..self.links.len() {
            loop {
                if self.links[i].closed {
                    break;
                }
                let mut buf = [0u8; 65536];
                let fd = self.links[i].fd;
                let r = unsafe { raw6(libc::SYS_recvfrom, fd as usize, buf.as_mut_ptr() as usize, buf.len(), 0, 0, 0) };
                if r == -(libc::EAGAIN as isize) {
                    break;
                }
                let b = if r > 0 { buf[..r as usize].to_vec() } else { vec![] };
                let end = b.is_empty();
                if self.links[i].cut {
                    if end {
                        self.close(i);
                    }
                    continue;
                }
                let at = (t + self.delay()).max(self.links[i].up.back().map_or(0, |x| x.0));
                self.links[i].up.push_back((at, b));
                if end {
                    // nothing can be read any more
                    self.links[i].cut = true;
                    break;
                }
            }
        }
    }
    /// Do what is due; the time of the next event.
    fn step(&mut self, t: u64) -> Option<u64> {
        self.drain(t);
        loop {
            let mut next: Option<(u64, usize, bool)> = None;
            for (i, l) in self.links.iter().enumerate() {
                if l.closed {
                    continue;
                }
                for (up, q) in [(true, &l.up), (false, &l.down)] {
                    if let Some((at, _)) = q.front() {
                        if next.is_none_or(|n| *at < n.0) {
                            next = Some((*at, i, up));
                        }
                    }
                }
            }
            let (at, i, up) = next?;
            if at > t {
                return Some(at);
            }
            if up {
                let (_, b) = self.links[i].up.pop_front().unwrap();
                if b.is_empty() {
                    sim(|s| s.log(&format!("link {i}: the client has closed it")));
                    self.close(i);
                } else {
                    self.links[i].inb.extend(b);
                    self.serve(i, t);
                }
            } else {
                let (_, b) = self.links[i].down.pop_front().unwrap();
                if b.is_empty() {
                    sim(|s| s.log(&format!("link {i}: lost")));
                    self.close(i);
                } else {
                    let fd = self.links[i].fd;
                    let r = unsafe {
                        raw6(libc::SYS_sendto, fd as usize, b.as_ptr() as usize, b.len(), libc::MSG_NOSIGNAL as usize, 0, 0)
                    };
                    if r >= 0 && (r as usize) < b.len() {
                        self.links[i].down.push_front((t + 1, b[r as usize..].to_vec()));
                    } else if r == -(libc::EAGAIN as isize) {
                        self.links[i].down.push_front((t + 100, b));
                    }
                }
            }
        }
    }
    /// Send `b` to the client, in pieces; `keep`: only this much of it (in thousandths), and then the connection ends.
    fn reply(&mut self, i: usize, t: u64, b: Vec<u8>, keep: Option<u32>, stall: u64) {
        let mut at = (t + self.delay() + stall).max(self.links[i].down.back().map_or(0, |x| x.0));
        let n = match keep {
            Some(k) => b.len() * k as usize / 1000,
            None => b.len(),
        };
        let mut cuts = vec![0, n];
        let frag = sim(|s| s.sched.draw(4, |r| if r.chance(700) { 0 } else { r.below(4) }));
        for _ in 0..frag {
            cuts.push(n * sim(|s| s.sched.below(1000)) as usize / 1000);
        }
        cuts.sort();
        cuts.dedup();
        if frag > 0 {
            sim(|s| s.stat("fault:fragmented_reply"));
        }
        for c in cuts.windows(2) {
            self.links[i].down.push_back((at, b[c[0]..c[1]].to_vec()));
            if frag > 0 {
                at += self.delay();
            }
        }
        if keep.is_some() {
            self.links[i].down.push_back((at, vec![]));
        }
    }
    /// The server reads what has arrived.
    fn serve(&mut self, i: usize, t: u64) {
        loop {
            if self.links[i].cut && self.links[i].be == usize::MAX {
                return;
            }
            let l = &mut self.links[i];
            if !l.greeted {
                if l.inb.len() < 8 {
                    return;
                }
                let n = u32::from_be_bytes(l.inb[..4].try_into().unwrap()) as usize;
                if l.inb.len() < n {
                    return;
                }
                let code = u32::from_be_bytes(l.inb[4..8].try_into().unwrap());
                l.inb.drain(..n);
                if code != 196608 {
                    self.reply(i, t, b"N".to_vec(), None, 0);
                    continue;
                }
                l.greeted = true;
                let mut r = message(b'R', &[0, 0, 0, 0]);
                for (k, v) in [("server_version", "16.0"), ("client_encoding", "UTF8"), ("DateStyle", "ISO, MDY"),
                    ("integer_datetimes", "on"), ("TimeZone", "UTC"), ("standard_conforming_strings", "on")]
                {
                    r.extend(message(b'S', format!("{k}\0{v}\0").as_bytes()));
                }
                r.extend(message(b'K', &[0, 0, 1, 0, 0, 0, 0, 7]));
                r.extend(message(b'Z', b"I"));
                let keep = match sim(|s| s.fault_here(&[Cut])) {
                    Some(_) => {
                        self.links[i].lost = true;
                        self.hang_up(i);
                        Some(sim(|s| s.fault.below(1001)))
                    }
                    None => None,
                };
                self.reply(i, t, r, keep, 0);
                continue;
            }
            // a request: everything up to Sync, or a simple query
            let mut at = 0;
            let mut kinds = vec![];
            let mut whole = false;
            while l.inb.len() >= at + 5 {
                let n = u32::from_be_bytes(l.inb[at + 1..at + 5].try_into().unwrap()) as usize;
                if l.inb.len() < at + 1 + n {
                    break;
                }
                kinds.push(l.inb[at]);
                at += 1 + n;
                if matches!(kinds.last(), Some(b'S' | b'Q' | b'X')) {
                    whole = true;
                    break;
                }
            }
            if !whole {
                return;
            }
            let req: Vec<u8> = l.inb.drain(..at).collect();
            if kinds.contains(&b'X') {
                slog!("link {i}: terminated by the client");
                self.close(i);
                return;
            }
            self.request(i, t, &kinds, &req);
        }
    }
    fn request(&mut self, i: usize, t: u64, kinds: &[u8], req: &[u8]) {
        let text = if kinds == [b'Q'] { String::from_utf8_lossy(&req[5..req.len() - 1]).to_string() } else { String::new() };
        let what: String = kinds.iter().map(|k| *k as char).collect();
        let said = if kinds[0] == b'P' {
            // name, text
            req[5..].split(|c| *c == 0).nth(1).map(|t| String::from_utf8_lossy(t).to_string()).unwrap_or_default()
        } else {
            text.clone()
        };
        slog!("link {i}: request {what} {}", said.chars().take(70).collect::<String>());
        if kinds[0] == b'P' {
            self.links[i].query = said.starts_with("SELECT");
        }
        let query = self.links[i].query;
        let end = text.starts_with("ROLLBACK") || kinds == [b'C', b'S'];
        let f = sim(|s| s.fault_here(if end { &[Cut, Stall] } else { &[Cut, Stall, SrvErr] }));
        let be = self.links[i].be;
        let mut stall = 0;
        let mut keep = None;
        match f {
            Some(Cut) => {
                let how = sim(|s| s.fault.below(5));
                self.links[i].lost = true;
                sim(|s| s.log(&format!("the connection is lost ({how})")));
                match how {
                    0 | 1 => {
                        // before the server has the whole request
                        self.hang_up(i);
                        let fatal = how == 1;
                        let b = if fatal {
                            error_message("FATAL", "57P01", "terminating connection due to administrator command")
                        } else {
                            vec![]
                        };
                        self.reply(i, t, b, Some(1000), 0);
                        return;
                    }
                    2 => keep = Some(0),
                    3 => keep = Some(sim(|s| s.fault.below(1000))),
                    _ => keep = Some(1000),
                }
            }
            Some(Stall) => {
                stall = 1_000_000 * (1 + sim(|s| s.fault.below(60))) as u64;
                sim(|s| s.log(&format!("the answer takes {stall} us longer")));
            }
            Some(SrvErr) => {
                sim(|s| s.log("the server fails this"));
                let b = &mut self.be[be].0;
                let r = if text.starts_with("COMMIT") {
                    b.run("ROLLBACK");
                    let mut r = error_message("ERROR", "40001", "could not serialize access");
                    r.extend(message(b'Z', &[b.status]));
                    r
                } else if query && kinds.contains(&b'E') && sim(|s| s.fault.chance(700)) {
                    // a query may fail while its rows are on the way
                    let r = b.ask(req);
                    let ms = messages(&r);
                    let rows = ms.iter().filter(|m| m.0 == b'D').count() as u32;
                    let select = ms.iter().any(|m| m.0 == b'C' && m.1.starts_with(b"SELECT"));
                    if rows == 0 || !select {
                        self.reply(i, t, r, None, 0);
                        return;
                    }
                    let mut left = sim(|s| s.fault.below(rows + 1));
                    let mut out = vec![];
                    for (k, m) in ms {
                        if k == b'D' {
                            if left == 0 {
                                break;
                            }
                            left -= 1;
                        }
                        if k == b'C' {
                            break;
                        }
                        out.extend(message(k, m));
                    }
                    out.extend(error_message("ERROR", "57014", "canceling statement due to user request"));
                    if b.status == b'T' {
                        let _ = b.sql("injected");
                    }
                    out.extend(message(b'Z', &[b.status]));
                    sim(|s| s.stat("fault:error_within_rows"));
                    out
                } else if kinds.contains(&b'E') && b.status == b'I' && sim(|s| s.fault.chance(400)) {
                    // executed, but what it has done cannot be committed
                    b.run("BEGIN");
                    let mut r = b.ask(req);
                    b.run("ROLLBACK");
                    if messages(&r).iter().all(|m| m.0 != b'E') {
                        r.truncate(r.len() - 6);
                        r.extend(error_message("ERROR", "40001", "could not serialize access"));
                        r.extend(message(b'Z', b"I"));
                    }
                    sim(|s| s.stat("fault:commit_failed"));
                    r
                } else {
                    let code = *sim(|s| *s.fault.pick(&[&"53100", &"57014", &"53200", &"40P01"]));
                    let mut q = format!("DO $$BEGIN RAISE EXCEPTION 'injected' USING ERRCODE='{code}'; END$$").into_bytes();
                    q.push(0);
                    b.ask(&message(b'Q', &q))
                };
                self.reply(i, t, r, None, 0);
                return;
            }
            _ => {}
        }
        let r = self.be[be].0.ask(req);
        if let Some(e) = messages(&r).iter().find(|m| m.0 == b'E') {
            slog!("link {i}: {}", error_text(e.1));
        }
        if keep.is_some() {
            self.hang_up(i);
            if messages(&r).iter().any(|m| m.0 == b'D') && sim(|s| s.fault.chance(600)) {
                // within the rows
                keep = Some(sim(|s| s.fault.below(1000)));
            }
        }
        self.reply(i, t, r, keep, stall);
    }
}
/// Called where a client waits for its sockets. The time of the next event on the network.
pub fn step() -> Option<u64> {
    if !on() {
        return None;
    }
    let mut g = NET.lock();
    let net = g.as_mut()?;
    let t = sim(|s| s.now_us);
    net.step(t)
}
/// The client waits, and nothing will ever happen.
pub fn stuck() {
    let mut g = NET.lock();
    let net = g.as_mut().unwrap();
    if !net.rescued {
        sim(|s| s.violate("stuck", "the client waits for an answer that will never come".into()));
        net.rescued = true;
    }
    for i in 0..net.links.len() {
        net.close(i);
    }
    sim(|s| s.now_us += 1000);
}
/// Has a connection been lost?
pub fn lost() -> bool {
    NET.lock().as_ref().is_some_and(|n| n.links.iter().any(|l| l.lost))
}
/// A client may give up waiting: the future is dropped after it has been polled a few times.
pub async fn may_abandon<T>(f: impl std::future::Future<Output = butane::Result<T>>) -> butane::Result<T> {
    if !on() || sim(|s| s.fault_here(&[Abandon])).is_none() {
        return f.await;
    }
    let mut left = sim(|s| s.fault.below(8));
    let mut f = Some(Box::pin(f));
    std::future::poll_fn(move |cx| {
        if left > 0 {
            left -= 1;
            if let std::task::Poll::Ready(r) = f.as_mut().unwrap().as_mut().poll(cx) {
                return std::task::Poll::Ready(r);
            }
            if left > 0 {
                return std::task::Poll::Pending;
            }
        }
        f = None;
        sim(|s| {
            s.log("abandoned");
            s.lost = true;
        });
        std::task::Poll::Ready(Err(butane::Error::Internal("abandoned".into())))
    })
    .await
}
/// Is the client in a transaction that the server has given up?
pub fn aborted() -> bool {
    on() && NET.lock().as_ref().is_some_and(|n| n.links.iter().any(|l| !l.closed && n.be.get(l.be).is_some_and(|b| b.0.status == b'E')))
}
/// An operation has failed: if its connection is lost, this client can do nothing more on it.
pub fn failed() {
    if on() && lost() {
        sim(|s| s.lost = true);
    }
}

// ---------------------------------------------------------------- the database

pub fn schema_sql() -> &'static str {
    static S: OnceLock<String> = OnceLock::new();
    S.get_or_init(|| {
        use butane::migrations::{Migration, MigrationsMut};
        let mut m = butane::migrations::from_root(concat!(env!("CARGO_MANIFEST_DIR"), "/.butane/migrations"));
        let adb = m.current().db().expect("model schema");
        let ops = butane_core::migrations::adb::diff(&Default::default(), &adb);
        let b = butane::db::get_backend("pg").unwrap();
        b.create_migration_sql(&Default::default(), ops).expect("schema sql")
    })
}
static ADM: RawMutex<Option<Raw>> = RawMutex::new(None);
pub fn warm(models: bool) {
    let db = format!("w{}", std::process::id());
    let mut a = Raw::open("postgres");
    for i in 0.. {
        match a.sql(&format!("CREATE DATABASE {db} STRATEGY file_copy")) {
            Ok(_) => break,
            Err(e) if i > 200 => panic!("{e}"),
            Err(e) if e.contains("already exists") => break,
            Err(_) => std::thread::sleep(std::time::Duration::from_millis(20)),
        }
    }
    let mut c = Raw::open(&db);
    if models && c.sql("SELECT 1 FROM kv").is_err() {
        if std::env::var_os("DST_SCHEMA").is_some() {
            eprintln!("{}", schema_sql());
        }
        c.run(schema_sql());
    }
    *ADM.lock() = Some(c);
    *NET.lock() = Some(Net { db, ..Default::default() });
}
fn adm<R>(f: impl FnOnce(&mut Raw) -> R) -> R {
    let mut g = ADM.lock();
    f(g.as_mut().expect("warm"))
}
static NAMES: OnceLock<Vec<String>> = OnceLock::new();
/// A name as the server spells it.
fn q(n: &str) -> String {
    let real = NAMES.get_or_init(|| {
        let r = adm(|a| a.sql("SELECT relname FROM pg_class WHERE relnamespace = 'public'::regnamespace")).expect("names");
        r[0].iter().filter_map(|r| r[0].clone()).collect()
    });
    let n = n.to_lowercase();
    format!("\"{}\"", real.iter().find(|r| r.to_lowercase() == n).unwrap_or(&n))
}
pub fn begin(models: bool) {
    {
        let mut g = NET.lock();
        let net = g.as_mut().unwrap();
        for i in 0..net.links.len() {
            net.close(i);
        }
        net.links.clear();
        net.down_until = 0;
        net.rescued = false;
        net.profile = sim(|s| s.sched.below(4));
    }
    sim(|s| s.lost = false);
    ON.store(true, Ordering::Relaxed);
    if !models {
        adm(|a| {
            a.run(
                "DROP SCHEMA public CASCADE; CREATE SCHEMA public; CREATE TABLE gate(id BIGINT PRIMARY KEY); \
                 CREATE TABLE tally(v BIGINT); INSERT INTO tally VALUES(1)",
            )
        });
        return;
    }
    let all: Vec<String> = TABLES.iter().map(|t| q(t.name)).chain(MANYS.iter().map(|m| q(m.name))).collect();
    adm(|a| a.run(&format!("TRUNCATE {} RESTART IDENTITY", all.join(","))));
}
pub fn end() {
    ON.store(false, Ordering::Relaxed);
    let mut g = NET.lock();
    let net = g.as_mut().unwrap();
    for i in 0..net.links.len() {
        net.close(i);
    }
    net.links.clear();
}
fn value(ty: Ty, x: &Option<String>) -> Result<V, String> {
    let Some(x) = x else { return Ok(V::N) };
    let bad = |e: &dyn std::fmt::Display| format!("bad value {x:?}: {e}");
    Ok(match ty {
        Ty::Int | Ty::Big => V::I(x.parse().map_err(|e| bad(&e))?),
        Ty::Real => V::R(x.parse::<f64>().map_err(|e| bad(&e))?.to_bits()),
        Ty::Bool => V::I((x == "t") as i64),
        Ty::Text | Ty::Day => V::T(x.clone()),
        Ty::Blob => {
            let h = x.strip_prefix("\\x").ok_or("blob")?;
            V::B((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect())
        }
        Ty::Ts => V::T(crate::models::ts_text(
            &chrono::NaiveDateTime::parse_from_str(x, "%Y-%m-%d %H:%M:%S%.f").map_err(|e| bad(&e))?,
        )),
        Ty::Other => V::T(serde_json::from_str::<serde_json::Value>(x).map_err(|e| bad(&e))?.to_string()),
    })
}
/// Everything that is committed on the server.
pub fn dump() -> Result<RefDb, String> {
    let mut sql = String::new();
    for t in TABLES {
        let cols: Vec<String> = t.cols.iter().map(|c| format!("\"{c}\"")).collect();
        sql += &format!("SELECT {} FROM {};", cols.join(","), q(t.name));
    }
    for m in MANYS {
        sql += &format!("SELECT owner, has FROM {};", q(m.name));
    }
    let rs = adm(|a| a.sql(&sql))?;
    let mut out = RefDb::new();
    for (t, rows) in TABLES.iter().zip(&rs) {
        for r in rows {
            let row = r.iter().zip(tys(t.name)).map(|(x, ty)| value(*ty, x)).collect::<Result<Row, _>>()?;
            if out.t.get_mut(t.name).unwrap().insert(row[0].clone(), row.clone()).is_some() {
                return Err(format!("{} has two rows with key {}", t.name, row[0].short()));
            }
        }
    }
    for (m, rows) in MANYS.iter().zip(&rs[TABLES.len()..]) {
        for r in rows {
            let p = (value(tys(m.owner)[0], &r[0])?, value(tys(m.has)[0], &r[1])?);
            out.m.get_mut(m.name).unwrap().insert(p);
        }
    }
    Ok(out)
}

/// The tables, columns, constraints and rows there are (C21).
pub fn look() -> Result<Act, String> {
    adm(|c| {
        let mut a = Act::default();
        let meta = "SELECT c.relname, a.attname, format_type(a.atttypid, NULL) || COALESCE((SELECT ' numbered as ' || \
                format_type(q.seqtypid, NULL) FROM pg_depend d JOIN pg_sequence q ON q.seqrelid = d.objid WHERE d.refobjid = c.oid \
                AND d.refobjsubid = a.attnum AND d.deptype = 'a' AND d.classid = 'pg_class'::regclass), ''), a.attnotnull, \
              EXISTS(SELECT 1 FROM pg_constraint k WHERE k.conrelid = c.oid AND k.contype = 'p' AND a.attnum = ANY(k.conkey)) \
            FROM pg_class c JOIN pg_attribute a ON a.attrelid = c.oid \
            WHERE c.relnamespace = 'public'::regnamespace AND c.relkind = 'r' AND a.attnum > 0 AND NOT a.attisdropped; \
            SELECT c.relname, k.contype::text, (SELECT string_agg(a.attname, ',') FROM pg_attribute a \
              WHERE a.attrelid = c.oid AND a.attnum = ANY(k.conkey)), k.confrelid::regclass::text \
            FROM pg_constraint k JOIN pg_class c ON k.conrelid = c.oid WHERE c.relnamespace = 'public'::regnamespace";
        let r = c.sql(meta)?;
        let s = |x: &Option<String>| x.clone().unwrap_or_default();
        let name = |x: &Option<String>| {
            let x = s(x).trim_matches('"').to_string();
            crate::mig::TNAMES.iter().find(|n| n.to_lowercase() == x).map_or(x, |n| n.to_string())
        };
        let mut cols: std::collections::BTreeMap<String, (String, Vec<String>)> = Default::default();
        for r in &r[0] {
            let e = cols.entry(name(&r[0])).or_insert_with(|| (s(&r[0]), vec![]));
            e.1.push(s(&r[1]));
            let t = a.tabs.entry(name(&r[0])).or_default();
            t.cols.insert(s(&r[1]), (s(&r[2]), s(&r[3]) == "t", s(&r[4]) == "t"));
        }
        for r in &r[1] {
            let t = a.tabs.get_mut(&name(&r[0])).ok_or("constraint of no table")?;
            match s(&r[1]).as_str() {
                "u" => {
                    t.uniq.insert(s(&r[2]));
                }
                "f" => {
                    t.fks.insert(s(&r[2]), name(&r[3]));
                }
                _ => {}
            }
        }
        for (n, (real, cs)) in &cols {
            let list: Vec<String> = cs.iter().map(|c| format!("\"{c}\"")).collect();
            let rows = c.sql(&format!("SELECT {} FROM \"{real}\"", list.join(",")))?.swap_remove(0);
            let num = |x: &Option<String>| s(x).parse::<i64>().map_err(|e| e.to_string());
            match n.as_str() {
                "gate" => a.gate = rows.iter().map(|r| num(&r[0])).collect::<Result<_, _>>()?,
                "tally" => a.tally = num(&rows[0][0])?,
                "butane_migrations" => a.applied = Some(rows.iter().map(|r| s(&r[0])).collect()),
                _ => {
                    let t = a.tabs.get_mut(n).unwrap();
                    for r in rows {
                        let v = r.into_iter().map(|x| x.map_or(V::N, V::T));
                        t.rows.push(cs.iter().cloned().zip(v).collect());
                    }
                }
            }
        }
        for n in ["gate", "tally", "butane_migrations"] {
            a.tabs.remove(n);
        }
        Ok(a)
    })
}
/// A value that `look` has read as text.
pub fn typed(ty: crate::mig::Ty, v: V) -> V {
    use crate::mig::Ty as M;
    let V::T(x) = v else { return v };
    let ty = match ty {
        M::Bool => Ty::Bool,
        M::Int => Ty::Int,
        M::Big => Ty::Big,
        M::Real => Ty::Real,
        M::Text => Ty::Text,
        M::Blob => Ty::Blob,
        M::Date => Ty::Day,
        M::Ts => Ty::Ts,
        M::Json => Ty::Other,
    };
    value(ty, &Some(x)).unwrap_or_else(V::T)
}

// ---------------------------------------------------------------- the runs

fn connect_now(sync: bool) -> butane::Result<Conn> {
    let r = if sync {
        butane::db::connect(&spec()).map(Conn::S)
    } else {
        now(butane::db::connect_async(&spec())).map(Conn::A)
    };
    if r.is_err() {
        failed();
    }
    r
}
fn pass(us: u64, sync: bool) {
    if sync {
        std::thread::sleep(std::time::Duration::from_micros(us));
    } else {
        now(async { tokio::time::sleep(std::time::Duration::from_micros(us)).await });
    }
}
/// The connection says it is closed exactly if it is lost. News may take a while to reach it.
fn check_closed(conn: &Conn, sync: bool) {
    pass(120_000_000, sync);
    let is = match conn {
        Conn::S(c) => BackendConnection::is_closed(c),
        Conn::A(c) => BackendConnectionAsync::is_closed(c),
        Conn::W(_) => return,
    };
    let l = lost();
    if is != l {
        sim(|s| s.violate("is_closed", format!("is_closed() is {is} for a connection that {}", if l { "was lost" } else { "is well" })));
    }
}
pub fn open(sync: bool) -> Option<Conn> {
    let h0 = sim(|s| s.plan.hits);
    match connect_now(sync) {
        Ok(c) => return Some(c),
        Err(e) if sim(|s| s.plan.hits) == h0 => {
            sim(|s| s.violate("spurious_error", format!("connect failed: {e}")));
            return None;
        }
        Err(_) => slog!("connect failed"),
    }
    sim(|s| s.end_faults());
    pass(2_000_000, sync);
    forget();
    match connect_now(sync) {
        Ok(c) => Some(c),
        Err(e) => {
            sim(|s| s.violate("not_recovered", format!("connect failed after the fault was gone: {e}")));
            None
        }
    }
}
/// What was lost is over; a new connection comes.
pub fn forget() {
    let mut g = NET.lock();
    let net = g.as_mut().unwrap();
    for i in 0..net.links.len() {
        let (fd, mut b) = (net.links[i].fd, [0u8]);
        let gone = |r: isize| r == 0 || r < 0 && r != -(libc::EAGAIN as isize);
        while !net.links[i].closed {
            let r = unsafe { raw6(libc::SYS_recvfrom, fd as usize, b.as_mut_ptr() as usize, 1, 0, 0, 0) };
            if net.links[i].cut || gone(r) {
                net.close(i);
            } else if r < 0 {
                break;
            }
        }
    }
    net.links.retain(|l| !l.closed);
    sim(|s| s.lost = false);
}
/// There are fewer occasions for a fault than with a disk.
pub fn faster() {
    sim(|s| {
        if s.plan.mean_gap > 0 {
            s.plan.mean_gap = *s.fault.pick(&[20u32, 6, 40, 80]);
        }
    });
}
fn session(cfg: Cfg, sync: bool) -> St {
    solo::draw_plan(cfg.faults, cfg.must, cfg.none_pm);
    faster();
    let mut st = St::new("", cfg.mix);
    let mut kept: Option<Conn> = None;
    for life in 0..cfg.lives {
        if cfg.lives > 1 && life + 1 == cfg.lives {
            sim(|s| s.set_plan(&[], 0, 0));
        }
        sim(|s| s.rearm());
        let Some(mut conn) = kept.take().or_else(|| open(sync)) else { break };
        let n = cfg.ops / 2 + sim(|s| s.work.below(cfg.ops));
        now_or(sync, st.session(&mut conn, n));
        if violated() {
            break;
        }
        if !me_dead() {
            sim(|s| s.end_faults());
            if lost() {
                // lost while nothing was going on
                check_closed(&conn, sync);
                drop(conn);
                forget();
                st.after_crash();
                continue;
            }
            pass(120_000_000, sync);
            let mut fresh = if sim(|s| s.work.chance(500)) { connect_now(sync).ok() } else { None };
            now_or(sync, st.recovered(&mut conn, fresh.as_mut()));
            if !violated() {
                check_closed(&conn, sync);
            }
            break;
        }
        if lost() || sim(|s| s.work.chance(300)) {
            check_closed(&conn, sync);
        }
        if violated() {
            break;
        }
        if lost() {
            drop(conn);
            forget();
        } else {
            // abandoned operations are over when the next one has been answered
            sim(|s| {
                s.lost = false;
                s.end_faults();
            });
            if let Err(e) = now_or(sync, crate::cn::has_table(conn.cn(), "kv")) {
                sim(|s| s.violate("not_recovered", format!("after an abandoned operation: {e}")));
            }
            kept = Some(conn);
        }
        st.after_crash();
        if violated() {
            break;
        }
    }
    st
}
fn now_or<F: std::future::Future>(sync: bool, f: F) -> F::Output {
    if sync {
        solo::at_once(f)
    } else {
        now(f)
    }
}
fn sessions(sync: bool) {
    let (mix, ops) = match sim(|s| s.work.below(3)) {
        0 => (solo::mix04(), 20),
        1 => (solo::mix01(), 14),
        _ => (solo::mix05(), 26),
    };
    begin(true);
    set_proc(new_proc());
    let cfg = match sim(|s| s.work.below(3)) {
        0 => Cfg { mix, faults: &[], must: &[], none_pm: 1000, ops, lives: 1 },
        1 => Cfg { mix, faults: &[SrvErr, Stall], must: &[], none_pm: 100, ops, lives: 1 },
        _ if sync => Cfg { mix, faults: &[Cut, SrvErr, Stall, CantOpen], must: &[Cut], none_pm: 30, ops: ops / 2 + 4, lives: 4 },
        _ => {
            let must: &[Fault] = if sim(|s| s.work.chance(500)) { &[Cut] } else { &[Abandon] };
            let faults = &[Cut, SrvErr, Stall, CantOpen, Abandon];
            Cfg { mix, faults, must, none_pm: 30, ops: ops / 2 + 4, lives: 5 }
        }
    };
    let st = session(cfg, sync);
    if st.ops > 3 {
        sim(|s| s.stat("nontrivial"));
    }
}
/// Several operations at once on one connection, some of them abandoned.
fn pipelined() {
    begin(true);
    set_proc(new_proc());
    adm(|a| a.run(crate::conc::PREFILL));
    let init = dump().unwrap();
    solo::draw_plan(&[SrvErr, Stall], &[], 600);
    faster();
    let cancel_pm = *sim(|s| *s.work.pick(&[&300u32, &0, &100]));
    let Some(mut conn) = open(false) else { return };
    let mut c = asy::Cands { s: vec![(init.clone(), init)], hist: vec![] };
    now(asy::pipeline(&mut conn, &mut c, cancel_pm));
    sim(|s| s.end_faults());
    if !violated() {
        now(asy::put_and_get(&mut conn, &mut c));
    }
    if !violated() {
        c.settle("at the end");
    }
    if !violated() {
        check_closed(&conn, false);
    }
    sim(|s| s.stat("nontrivial"));
}
pub fn c17() {
    let kind = sim(|s| s.work.weighted(&[4, 3, 3]));
    let r = catch_unwind(AssertUnwindSafe(|| match kind {
        0 => solo::with_io_runtime(|| sessions(false)),
        1 => solo::with_io_runtime(pipelined),
        _ => {
            sim(|s| s.switch_pm = *s.sched.pick(&[300u32, 50, 600]));
            let ok = crate::core::run_clients(vec![("c0".into(), new_proc(), Box::new(|| sessions(true)))]);
            if !ok && !violated() {
                sim(|s| s.violate("deadlock", "every thread waits for another".into()));
            }
        }
    }));
    end();
    if let Err(e) = r {
        std::panic::resume_unwind(e);
    }
}
pub unsafe fn c_connect(fd: c_int, addr: *const c_void, len: u32) -> c_int {
    match connect(fd, addr, len) {
        Some(r) => r,
        None => ret(raw6(libc::SYS_connect, fd as usize, addr as usize, len as usize, 0, 0, 0)) as c_int,
    }
}
