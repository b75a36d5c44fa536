//! A SQLite VFS over a simulated disk. Real SQLite code runs above it; every open, read, write, sync, truncate,
//! delete, lock and sleep is a scheduling point and a possible fault or crash point.
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_void, CStr};

use rusqlite::ffi;

use crate::core::{proc_id, sim, sleep_us, yield_point, Fault, Sim};

#[derive(Clone)]
enum Pend {
    Write(usize, Vec<u8>),
    Trunc(usize),
}
#[derive(Default)]
struct Node {
    data: Vec<u8>,
    durable: Vec<u8>,
    pending: Vec<Pend>,
    locks: Vec<(u64, c_int)>, // handle, level
    shm: Vec<Box<[u8; 32768]>>,
    shm_locks: [Vec<(u64, bool)>; 8], // handle, exclusive
}
#[derive(Default)]
pub struct Disk {
    names: BTreeMap<String, usize>,
    nodes: Vec<Node>,
    next_handle: u64,
    /// open handles: handle -> (node, proc)
    open: BTreeMap<u64, (usize, u32)>,
    pub full: bool,
    pub quota: Option<usize>,
    pub ops: u64,
    pub syncs: u64,
}

impl Disk {
    fn node(&mut self, path: &str, create: bool) -> Option<usize> {
        if let Some(n) = self.names.get(path) {
            return Some(*n);
        }
        if !create {
            return None;
        }
        self.nodes.push(Node::default());
        let n = self.nodes.len() - 1;
        self.names.insert(path.into(), n);
        Some(n)
    }
    pub fn files(&self) -> Vec<(String, usize)> {
        self.names.iter().map(|(k, v)| (k.clone(), self.nodes[*v].data.len())).collect()
    }
    pub fn lock_holders(&self) -> usize {
        self.nodes.iter().map(|n| n.locks.len()).sum()
    }
    pub fn open_handles_of(&self, proc: u32) -> usize {
        self.open.values().filter(|x| x.1 == proc).count()
    }
    pub fn open_handles(&self) -> usize {
        self.open.len()
    }
    /// Copy of the current content of a file (as the operating system sees it).
    pub fn content(&self, path: &str) -> Option<Vec<u8>> {
        self.names.get(path).map(|n| self.nodes[*n].data.clone())
    }
    pub fn put(&mut self, path: &str, data: Vec<u8>) {
        let n = self.node(path, true).unwrap();
        self.nodes[n].durable = data.clone();
        self.nodes[n].data = data;
        self.nodes[n].pending.clear();
    }
    pub fn remove(&mut self, path: &str) {
        self.names.remove(path);
    }
    fn drop_handles(&mut self, pred: impl Fn(u32) -> bool) {
        let gone: Vec<u64> = self.open.iter().filter(|(_, v)| pred(v.1)).map(|(k, _)| *k).collect();
        for h in gone {
            self.open.remove(&h);
            for n in self.nodes.iter_mut() {
                n.locks.retain(|l| l.0 != h);
                for s in n.shm_locks.iter_mut() {
                    s.retain(|l| l.0 != h);
                }
            }
        }
    }
}

fn apply(v: &mut Vec<u8>, p: &Pend) {
    match p {
        Pend::Write(off, b) => {
            if v.len() < off + b.len() {
                v.resize(off + b.len(), 0);
            }
            v[*off..off + b.len()].copy_from_slice(b);
        }
        Pend::Trunc(n) => v.truncate(*n),
    }
}

impl Sim {
    /// The process dies: its locks and handles vanish, its completed system calls stay.
    pub fn kill_proc(&mut self, p: u32) {
        self.log(&format!("KILL process {p}"));
        if !self.dead_procs.contains(&p) {
            self.dead_procs.push(p);
        }
        self.disk.drop_handles(|x| x == p);
        crate::fsim::proc_died(p);
    }
    /// The machine dies: every process is gone and of the writes not yet synced an arbitrary part survives.
    pub fn power_loss(&mut self) {
        let mut d = std::mem::take(&mut self.disk);
        for p in 0..=self.max_proc {
            if !self.dead_procs.contains(&p) {
                self.dead_procs.push(p);
            }
        }
        d.drop_handles(|_| true);
        let mut desc = vec![];
        let names: Vec<(String, usize)> = d.names.iter().map(|(a, b)| (a.clone(), *b)).collect();
        for (name, i) in names {
            let n = &mut d.nodes[i];
            n.shm.clear();
            if n.pending.is_empty() {
                n.data = n.durable.clone();
                continue;
            }
            let mode = self.fault.draw(5, |r| r.below(5));
            let mut out = n.durable.clone();
            let np = n.pending.len();
            match mode {
                0 => {}
                1 => out = n.data.clone(),
                2 => {
                    let k = self.fault.below(np as u32 + 1) as usize;
                    for p in &n.pending[..k] {
                        apply(&mut out, p);
                    }
                }
                _ => {
                    for p in n.pending.clone() {
                        if self.fault.chance(500) {
                            if mode == 4 {
                                if let Pend::Write(off, b) = &p {
                                    if b.len() > 512 && self.fault.chance(300) {
                                        // torn: only some sectors of this write made it
                                        let cut = 512 * (1 + self.fault.below((b.len() / 512) as u32) as usize);
                                        let cut = cut.min(b.len());
                                        if self.fault.chance(500) {
                                            apply(&mut out, &Pend::Write(*off, b[..cut].to_vec()));
                                        } else {
                                            apply(&mut out, &Pend::Write(*off + b.len() - cut, b[b.len() - cut..].to_vec()));
                                        }
                                        self.stats.entry("fault:torn_write").and_modify(|x| *x += 1).or_insert(1);
                                        continue;
                                    }
                                }
                            }
                            apply(&mut out, &p);
                        } else {
                            self.stats.entry("fault:lost_unsynced_write").and_modify(|x| *x += 1).or_insert(1);
                        }
                    }
                }
            }
            desc.push(format!("{name}: {np} unsynced, mode {mode}, {} -> {} bytes", n.durable.len(), out.len()));
            n.data = out.clone();
            n.durable = out;
            n.pending.clear();
        }
        self.disk = d;
        self.log(&format!("POWER LOSS {}", desc.join("; ")));
    }
}

#[repr(C)]
struct SimFile {
    base: ffi::sqlite3_file,
    handle: u64,
    node: usize,
    proc: u32,
    level: c_int,
    del: Option<Box<String>>,
    name: *mut String,
}

enum Out {
    Go,
    Rc(c_int),
    /// write only: perform this many bytes, then return the code
    Part(usize, c_int),
    /// perform the operation, then die
    After(Fault),
}

#[derive(Clone, Copy, PartialEq)]
enum Op {
    Read,
    Write,
    Sync,
    Trunc,
    Open,
    Delete,
    Lock,
}


fn crash(s: &mut Sim, k: Fault, p: u32) {
    if k == Fault::Kill {
        s.kill_proc(p);
    } else {
        s.power_loss();
    }
}

fn point(op: Op, path: &str, handle: Option<u64>, len: usize) -> Out {
    yield_point();
    let p = proc_id();
    sim(|s| {
        if s.quiet {
            return Out::Go;
        }
        s.now_us += match op {
            Op::Read => 5,
            Op::Sync => 200,
            _ => 20,
        };
        s.disk.ops += 1;
        let dead = s.proc_dead(p) || handle.is_some_and(|h| !s.disk.open.contains_key(&h));
        if dead {
            return Out::Rc(match op {
                Op::Read => ffi::SQLITE_IOERR_READ,
                Op::Write => ffi::SQLITE_IOERR_WRITE,
                Op::Sync => ffi::SQLITE_IOERR_FSYNC,
                Op::Trunc => ffi::SQLITE_IOERR_TRUNCATE,
                Op::Open => ffi::SQLITE_CANTOPEN,
                Op::Delete => ffi::SQLITE_IOERR_DELETE,
                Op::Lock => ffi::SQLITE_IOERR_LOCK,
            });
        }
        use Fault::*;
        let app: &[Fault] = match op {
            Op::Read => &[Eio, Kill, Power],
            Op::Write => &[Eio, Full, Torn, Kill, Power],
            Op::Sync => &[Eio, Kill, Power],
            Op::Trunc => &[Eio, Kill, Power],
            Op::Open => &[CantOpen, Kill, Power],
            Op::Delete => &[Eio, Kill, Power],
            Op::Lock => &[Busy, Kill, Power],
        };
        let f = s.fault_here(app);
        if f.is_none() && op == Op::Write && s.plan.full_left > 0 {
            s.plan.full_left -= 1;
            s.plan.hits += 1;
            s.log(&format!("write {path} {len} still full"));
            s.stat("fault:disk_full");
            return Out::Rc(ffi::SQLITE_FULL);
        }
        let opn = match op {
            Op::Read => "read",
            Op::Write => "write",
            Op::Sync => "sync",
            Op::Trunc => "truncate",
            Op::Open => "open",
            Op::Delete => "delete",
            Op::Lock => "lock",
        };
        match f {
            None => {
                s.log(&format!("{opn} {path} {len}"));
                Out::Go
            }
            Some(k) => {
                s.log(&format!("{opn} {path} {len} FAULT {k:?}"));
                match k {
                    Kill | Power => {
                        if s.fault.chance(500) {
                            return Out::After(k);
                        }
                        if op == Op::Write && len > 512 && s.fault.chance(400) {
                            let n = 512 * s.fault.below((len / 512) as u32) as usize;
                            // the prefix is written, then the process dies
                            return Out::Part(n, -(k as c_int) - 1);
                        }
                        crash(s, k, p);
                        Out::Rc(match op {
                            Op::Open => ffi::SQLITE_CANTOPEN,
                            _ => ffi::SQLITE_IOERR,
                        })
                    }
                    Full => {
                        s.plan.full_left = s.fault.draw(40, |r| if r.chance(500) { 0 } else { r.below(40) });
                        let n = s.fault.below(2) as usize * (len / 2);
                        Out::Part(n, ffi::SQLITE_FULL)
                    }
                    Torn => {
                        let n = s.fault.below(len as u32 + 1) as usize;
                        Out::Part(n, ffi::SQLITE_IOERR_WRITE)
                    }
                    Busy => {
                        let lv = [1, 2, 4][s.fault.below(3) as usize];
                        let ms = s.fault.draw(9000, |r| if r.chance(700) { r.below(200) } else { r.below(9000) });
                        let node = s.disk.names.get(path).copied();
                        let others = node.map_or(0, |n| s.disk.nodes[n].locks.iter().map(|l| l.1).max().unwrap_or(0));
                        let hot = others < 2 && s.disk.names.contains_key(&format!("{path}-journal"));
                        let fits = match lv {
                            1 => others < 3,
                            2 => others < 2,
                            _ => others == 0,
                        };
                        if fits && !hot && !path.ends_with("orc.db") {
                            s.plan.foreign = Some((lv, s.now_us + ms as u64 * 1000));
                            s.log(&format!("another process locks at level {lv} for {ms} ms"));
                        }
                        Out::Go
                    }
                    _ => Out::Rc(match op {
                        Op::Read => ffi::SQLITE_IOERR_READ,
                        Op::Write => ffi::SQLITE_IOERR_WRITE,
                        Op::Sync => ffi::SQLITE_IOERR_FSYNC,
                        Op::Trunc => ffi::SQLITE_IOERR_TRUNCATE,
                        Op::Open => ffi::SQLITE_CANTOPEN,
                        Op::Delete => ffi::SQLITE_IOERR_DELETE,
                        Op::Lock => ffi::SQLITE_IOERR_LOCK,
                    }),
                }
            }
        }
    })
}

/// Finish an operation after which the process or machine dies.
fn finish(o: Out, okrc: c_int) -> c_int {
    if let Out::After(k) = o {
        let p = proc_id();
        sim(|s| crash(s, k, p));
        return ffi::SQLITE_IOERR;
    }
    okrc
}

unsafe fn f<'a>(p: *mut ffi::sqlite3_file) -> &'a mut SimFile {
    &mut *(p as *mut SimFile)
}
unsafe fn fname<'a>(x: &SimFile) -> &'a str {
    (*x.name).as_str()
}

unsafe extern "C" fn x_close(p: *mut ffi::sqlite3_file) -> c_int {
    let x = f(p);
    let h = x.handle;
    let del = x.del.take();
    sim(|s| {
        let alive = s.disk.open.remove(&h).is_some();
        for n in s.disk.nodes.iter_mut() {
            n.locks.retain(|l| l.0 != h);
            for l in n.shm_locks.iter_mut() {
                l.retain(|l| l.0 != h);
            }
        }
        if alive {
            if let Some(d) = &del {
                s.disk.names.remove(d.as_str());
            }
        }
        s.log(&format!("close #{h}"));
    });
    drop(Box::from_raw(x.name));
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_read(p: *mut ffi::sqlite3_file, buf: *mut c_void, n: c_int, off: i64) -> c_int {
    let x = f(p);
    let o = point(Op::Read, fname(x), Some(x.handle), n as usize);
    if let Out::Rc(r) = o {
        return r;
    }
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, n as usize);
    let rc = sim(|s| {
        let d = &s.disk.nodes[x.node].data;
        let off = off as usize;
        if off >= d.len() {
            out.fill(0);
            return ffi::SQLITE_IOERR_SHORT_READ;
        }
        let m = (d.len() - off).min(n as usize);
        out[..m].copy_from_slice(&d[off..off + m]);
        if m < n as usize {
            out[m..].fill(0);
            return ffi::SQLITE_IOERR_SHORT_READ;
        }
        ffi::SQLITE_OK
    });
    finish(o, rc)
}
unsafe extern "C" fn x_write(p: *mut ffi::sqlite3_file, buf: *const c_void, n: c_int, off: i64) -> c_int {
    let x = f(p);
    let o = point(Op::Write, fname(x), Some(x.handle), n as usize);
    let b = std::slice::from_raw_parts(buf as *const u8, n as usize);
    let w = |m: usize| {
        if m == 0 {
            return;
        }
        sim(|s| {
            let pd = Pend::Write(off as usize, b[..m].to_vec());
            let nd = &mut s.disk.nodes[x.node];
            apply(&mut nd.data, &pd);
            nd.pending.push(pd);
        })
    };
    match o {
        Out::Rc(r) => r,
        Out::Part(m, r) => {
            w(m);
            if r < 0 {
                let k = if -(r + 1) == Fault::Kill as c_int { Fault::Kill } else { Fault::Power };
                let pr = proc_id();
                sim(|s| crash(s, k, pr));
                return ffi::SQLITE_IOERR_WRITE;
            }
            r
        }
        o => {
            w(n as usize);
            finish(o, ffi::SQLITE_OK)
        }
    }
}
unsafe extern "C" fn x_truncate(p: *mut ffi::sqlite3_file, size: i64) -> c_int {
    let x = f(p);
    let o = point(Op::Trunc, fname(x), Some(x.handle), size as usize);
    if let Out::Rc(r) = o {
        return r;
    }
    sim(|s| {
        let nd = &mut s.disk.nodes[x.node];
        if nd.data.len() > size as usize {
            nd.data.truncate(size as usize);
            nd.pending.push(Pend::Trunc(size as usize));
        }
    });
    finish(o, ffi::SQLITE_OK)
}
unsafe extern "C" fn x_sync(p: *mut ffi::sqlite3_file, _flags: c_int) -> c_int {
    let x = f(p);
    let o = point(Op::Sync, fname(x), Some(x.handle), 0);
    if let Out::Rc(r) = o {
        return r;
    }
    sim(|s| {
        s.disk.syncs += 1;
        s.stat("disk_syncs");
        let nd = &mut s.disk.nodes[x.node];
        if !nd.pending.is_empty() {
            nd.durable = nd.data.clone();
            nd.pending.clear();
        }
    });
    finish(o, ffi::SQLITE_OK)
}
unsafe extern "C" fn x_filesize(p: *mut ffi::sqlite3_file, out: *mut i64) -> c_int {
    let x = f(p);
    sim(|s| *out = s.disk.nodes[x.node].data.len() as i64);
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_lock(p: *mut ffi::sqlite3_file, want: c_int) -> c_int {
    let x = f(p);
    if x.level >= want {
        return ffi::SQLITE_OK;
    }
    let o = point(Op::Lock, fname(x), Some(x.handle), want as usize);
    if let Out::Rc(r) = o {
        return r;
    }
    let h = x.handle;
    let rc = sim(|s| {
        let mut others_max = 0;
        let mut others = 0;
        let mut foreign = false;
        if !s.quiet {
            if let Some((lv, until)) = s.plan.foreign {
                if s.now_us >= until {
                    s.plan.foreign = None;
                } else {
                    others = 1;
                    others_max = lv;
                    foreign = true;
                }
            }
        }
        let nd = &mut s.disk.nodes[x.node];
        for l in &nd.locks {
            if l.0 != h {
                others += 1;
                others_max = others_max.max(l.1);
            }
        }
        let (ok, got) = match want {
            1 => (others_max < 3, 1),
            2 => (others_max < 2, 2),
            4 => {
                if others_max >= 3 {
                    (false, x.level)
                } else if others > 0 {
                    (false, 3)
                } else {
                    (true, 4)
                }
            }
            w => (others_max < 2, w),
        };
        if got != x.level && (ok || got == 3) {
            nd.locks.retain(|l| l.0 != h);
            nd.locks.push((h, got));
            x.level = got;
        }
        if ok {
            ffi::SQLITE_OK
        } else {
            s.stat("probe:lock_busy");
            if foreign {
                s.plan.hits += 1;
            }
            s.log(&format!("lock #{h} {want} BUSY"));
            ffi::SQLITE_BUSY
        }
    });
    finish(o, rc)
}
unsafe extern "C" fn x_unlock(p: *mut ffi::sqlite3_file, to: c_int) -> c_int {
    let x = f(p);
    let h = x.handle;
    sim(|s| {
        if !s.disk.open.contains_key(&h) {
            return;
        }
        s.log(&format!("unlock #{h} {to}"));
        let nd = &mut s.disk.nodes[x.node];
        nd.locks.retain(|l| l.0 != h);
        if to > 0 {
            nd.locks.push((h, to));
        }
    });
    x.level = to;
    yield_point();
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_check_reserved(p: *mut ffi::sqlite3_file, out: *mut c_int) -> c_int {
    let x = f(p);
    sim(|s| {
        let f = s.plan.foreign.is_some_and(|(lv, until)| lv >= 2 && s.now_us < until && !s.quiet);
        *out = (f || s.disk.nodes[x.node].locks.iter().any(|l| l.1 >= 2)) as c_int
    });
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_file_control(_p: *mut ffi::sqlite3_file, _op: c_int, _a: *mut c_void) -> c_int {
    ffi::SQLITE_NOTFOUND
}
unsafe extern "C" fn x_sector_size(_p: *mut ffi::sqlite3_file) -> c_int {
    4096
}
unsafe extern "C" fn x_devchar(_p: *mut ffi::sqlite3_file) -> c_int {
    ffi::SQLITE_IOCAP_POWERSAFE_OVERWRITE
}
unsafe extern "C" fn x_shm_map(p: *mut ffi::sqlite3_file, reg: c_int, sz: c_int, ext: c_int, out: *mut *mut c_void) -> c_int {
    let x = f(p);
    assert_eq!(sz, 32768);
    sim(|s| {
        let nd = &mut s.disk.nodes[x.node];
        while nd.shm.len() <= reg as usize {
            if ext == 0 {
                *out = std::ptr::null_mut();
                return;
            }
            nd.shm.push(Box::new([0; 32768]));
        }
        *out = nd.shm[reg as usize].as_mut_ptr() as *mut c_void;
    });
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_shm_lock(p: *mut ffi::sqlite3_file, ofst: c_int, n: c_int, flags: c_int) -> c_int {
    let x = f(p);
    let h = x.handle;
    yield_point();
    sim(|s| {
        let nd = &mut s.disk.nodes[x.node];
        let excl = flags & ffi::SQLITE_SHM_EXCLUSIVE != 0;
        let r = ofst as usize..(ofst + n) as usize;
        if flags & ffi::SQLITE_SHM_UNLOCK != 0 {
            for i in r {
                nd.shm_locks[i].retain(|l| l.0 != h);
            }
            return ffi::SQLITE_OK;
        }
        for i in r.clone() {
            if nd.shm_locks[i].iter().any(|l| l.0 != h && (excl || l.1)) {
                return ffi::SQLITE_BUSY;
            }
        }
        for i in r {
            if !nd.shm_locks[i].iter().any(|l| l.0 == h) {
                nd.shm_locks[i].push((h, excl));
            }
        }
        ffi::SQLITE_OK
    })
}
unsafe extern "C" fn x_shm_barrier(_p: *mut ffi::sqlite3_file) {}
unsafe extern "C" fn x_shm_unmap(p: *mut ffi::sqlite3_file, _del: c_int) -> c_int {
    let x = f(p);
    let h = x.handle;
    sim(|s| {
        for l in s.disk.nodes[x.node].shm_locks.iter_mut() {
            l.retain(|l| l.0 != h);
        }
    });
    ffi::SQLITE_OK
}

static METHODS: ffi::sqlite3_io_methods = ffi::sqlite3_io_methods {
    iVersion: 2,
    xClose: Some(x_close),
    xRead: Some(x_read),
    xWrite: Some(x_write),
    xTruncate: Some(x_truncate),
    xSync: Some(x_sync),
    xFileSize: Some(x_filesize),
    xLock: Some(x_lock),
    xUnlock: Some(x_unlock),
    xCheckReservedLock: Some(x_check_reserved),
    xFileControl: Some(x_file_control),
    xSectorSize: Some(x_sector_size),
    xDeviceCharacteristics: Some(x_devchar),
    xShmMap: Some(x_shm_map),
    xShmLock: Some(x_shm_lock),
    xShmBarrier: Some(x_shm_barrier),
    xShmUnmap: Some(x_shm_unmap),
    xFetch: None,
    xUnfetch: None,
};

unsafe extern "C" fn v_open(
    _v: *mut ffi::sqlite3_vfs,
    name: *const c_char,
    file: *mut ffi::sqlite3_file,
    flags: c_int,
    outflags: *mut c_int,
) -> c_int {
    (*file).pMethods = std::ptr::null();
    let nm = if name.is_null() {
        None
    } else {
        Some(CStr::from_ptr(name).to_string_lossy().to_string())
    };
    let o = point(Op::Open, nm.as_deref().unwrap_or("(temp)"), None, 0);
    if let Out::Rc(r) = o {
        return r;
    }
    let pr = proc_id();
    let r = sim(|s| {
        let create = flags & ffi::SQLITE_OPEN_CREATE != 0;
        let node = match &nm {
            Some(n) => {
                if flags & ffi::SQLITE_OPEN_EXCLUSIVE != 0 && s.disk.names.contains_key(n) {
                    return None;
                }
                s.disk.node(n, create)?
            }
            None => {
                s.disk.nodes.push(Node::default());
                s.disk.nodes.len() - 1
            }
        };
        s.disk.next_handle += 1;
        let h = s.disk.next_handle;
        s.disk.open.insert(h, (node, pr));
        Some((h, node))
    });
    let Some((h, node)) = r else {
        return finish(o, ffi::SQLITE_CANTOPEN);
    };
    let del = if flags & ffi::SQLITE_OPEN_DELETEONCLOSE != 0 { nm.clone().map(Box::new) } else { None };
    let x = file as *mut SimFile;
    std::ptr::write(
        x,
        SimFile {
            base: ffi::sqlite3_file { pMethods: &METHODS },
            handle: h,
            node,
            proc: pr,
            level: 0,
            del,
            name: Box::into_raw(Box::new(nm.unwrap_or_else(|| "(temp)".into()))),
        },
    );
    let _ = (*x).proc;
    if !outflags.is_null() {
        *outflags = flags;
    }
    // when the crash strikes after the open, the file stays open for the zombie: its later calls fail
    finish(o, ffi::SQLITE_OK).min(0)
}
unsafe extern "C" fn v_delete(_v: *mut ffi::sqlite3_vfs, name: *const c_char, _sync: c_int) -> c_int {
    let nm = CStr::from_ptr(name).to_string_lossy().to_string();
    let o = point(Op::Delete, &nm, None, 0);
    if let Out::Rc(r) = o {
        return r;
    }
    let rc = sim(|s| {
        if s.disk.names.remove(&nm).is_some() {
            ffi::SQLITE_OK
        } else {
            ffi::SQLITE_IOERR_DELETE_NOENT
        }
    });
    finish(o, rc)
}
unsafe extern "C" fn v_access(_v: *mut ffi::sqlite3_vfs, name: *const c_char, _flags: c_int, out: *mut c_int) -> c_int {
    let nm = CStr::from_ptr(name).to_string_lossy().to_string();
    sim(|s| *out = s.disk.names.contains_key(&nm) as c_int);
    ffi::SQLITE_OK
}
unsafe extern "C" fn v_fullpath(_v: *mut ffi::sqlite3_vfs, name: *const c_char, n: c_int, out: *mut c_char) -> c_int {
    let nm = CStr::from_ptr(name).to_bytes_with_nul();
    if nm.len() > n as usize {
        return ffi::SQLITE_CANTOPEN;
    }
    std::ptr::copy_nonoverlapping(nm.as_ptr(), out as *mut u8, nm.len());
    ffi::SQLITE_OK
}
unsafe extern "C" fn v_random(_v: *mut ffi::sqlite3_vfs, n: c_int, out: *mut c_char) -> c_int {
    sim(|s| {
        for i in 0..n as usize {
            *out.add(i) = s.aux.next() as c_char;
        }
    });
    n
}
unsafe extern "C" fn v_sleep(_v: *mut ffi::sqlite3_vfs, us: c_int) -> c_int {
    sim(|s| s.stat("probe:busy_wait"));
    sleep_us(us.max(1) as u64);
    us
}
unsafe extern "C" fn v_time(_v: *mut ffi::sqlite3_vfs, out: *mut f64) -> c_int {
    *out = 2460000.5 + sim(|s| s.now_us) as f64 / 86_400e6;
    ffi::SQLITE_OK
}
unsafe extern "C" fn v_time64(_v: *mut ffi::sqlite3_vfs, out: *mut i64) -> c_int {
    *out = 212_544_000_000_000 + sim(|s| s.now_us) as i64 / 1000;
    ffi::SQLITE_OK
}
unsafe extern "C" fn v_lasterr(_v: *mut ffi::sqlite3_vfs, _n: c_int, _o: *mut c_char) -> c_int {
    0
}

/// Register the simulated disk as SQLite's default VFS. Once per process.
pub fn install() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        let v = Box::leak(Box::new(ffi::sqlite3_vfs {
            iVersion: 2,
            szOsFile: std::mem::size_of::<SimFile>() as c_int,
            mxPathname: 512,
            pNext: std::ptr::null_mut(),
            zName: c"simdisk".as_ptr(),
            pAppData: std::ptr::null_mut(),
            xOpen: Some(v_open),
            xDelete: Some(v_delete),
            xAccess: Some(v_access),
            xFullPathname: Some(v_fullpath),
            xDlOpen: None,
            xDlError: None,
            xDlSym: None,
            xDlClose: None,
            xRandomness: Some(v_random),
            xSleep: Some(v_sleep),
            xCurrentTime: Some(v_time),
            xGetLastError: Some(v_lasterr),
            xCurrentTimeInt64: Some(v_time64),
            xSetSystemCall: None,
            xGetSystemCall: None,
            xNextSystemCall: None,
        }));
        let rc = ffi::sqlite3_vfs_register(v, 1);
        assert_eq!(rc, ffi::SQLITE_OK);
    });
}
