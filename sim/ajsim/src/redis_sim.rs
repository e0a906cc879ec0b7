//! A small Redis server and the network to it, inside the process. The real `redis` client crate and
//! AJ's real Redis backend talk to it through interposed socket calls.
use crate::plan::Fault;
use libc::{c_int, c_void, size_t, ssize_t, socklen_t};
use std::collections::{BTreeMap, VecDeque};
use std::sync::Mutex;

#[derive(Default)]
struct Conn {
    input: Vec<u8>,
    output: VecDeque<u8>,
    /// commands queued since MULTI
    multi: Option<Vec<Vec<Vec<u8>>>>,
    dead: bool,
    /// the peer closed after `output` has been read
    eof: bool,
    connected: bool,
    toggles: u32,
}

#[derive(Default)]
pub struct Server {
    pub lists: BTreeMap<Vec<u8>, VecDeque<Vec<u8>>>,
    pub hashes: BTreeMap<Vec<u8>, BTreeMap<Vec<u8>, Vec<u8>>>,
    conns: BTreeMap<c_int, Conn>,
    on: bool,
    fault: Option<Fault>,
    cut_at: u32,
    call: u64,
    /// commands received during the current backend operation
    op_cmds: u32,
    pub fired: BTreeMap<&'static str, u64>,
    pub cmds: u64,
    pub blocked: u64,
    next_fd: c_int,
    rival: Option<(u32, Vec<Vec<Vec<u8>>>)>,
    rival_ran: bool,
}

pub static S: Mutex<Option<Server>> = Mutex::new(None);

fn s<R>(f: impl FnOnce(&mut Server) -> R) -> R {
    let mut g = S.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Server::default))
}

pub fn with<R>(f: impl FnOnce(&mut Server) -> R) -> R {
    s(f)
}
/// What another client does before the command with that index of the next operation.
pub fn set_rival(r: Option<(u32, Vec<Vec<Vec<u8>>>)>) {
    s(|s| {
        s.rival = r;
        s.rival_ran = false;
    });
}
pub fn rival_ran() -> bool {
    s(|s| s.rival_ran)
}
pub fn drop_conns() {
    s(|s| {
        let mut n = 0;
        for c in s.conns.values_mut() {
            c.eof = true;
            n += 1;
        }
        if n > 0 {
            s.fire("open_conn_closed_by_server");
        }
    });
}

pub fn client() -> aj::redis::Redis {
    s(|s| {
        s.on = true;
        s.next_fd = 1_000_000;
    });
    aj::redis::Redis::new("redis://127.0.0.1:6379/")
}

pub fn load(d: &crate::backend::Durable) {
    s(|s| {
        for (k, v) in &d.lists {
            s.lists.insert(k.clone().into_bytes(), v.iter().map(|x| x.clone().into_bytes()).collect());
        }
        for (h, m) in &d.hashes {
            s.hashes.insert(h.clone().into_bytes(), m.iter().map(|(k, v)| (k.clone().into_bytes(), v.clone().into_bytes())).collect());
        }
    });
}

/// The network fault that applies to the next backend operation.
pub fn arm(f: Option<Fault>, call: u64) {
    s(|s| {
        s.fault = f;
        s.call = call;
        s.op_cmds = 0;
        s.cut_at = (call.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 33) as u32 % 4;
    });
}
pub fn disarm() {
    s(|s| s.fault = None);
}
pub fn arm_at(f: Option<Fault>, cut_at: u32) {
    s(|s| {
        s.fault = f;
        s.op_cmds = 0;
        s.cut_at = cut_at;
    });
}

fn bulk(out: &mut Vec<u8>, v: &[u8]) {
    out.extend_from_slice(format!("${}\r\n", v.len()).as_bytes());
    out.extend_from_slice(v);
    out.extend_from_slice(b"\r\n");
}
fn num(s: &[u8]) -> i64 {
    std::str::from_utf8(s).ok().and_then(|s| s.parse().ok()).unwrap_or(0)
}

impl Server {
    fn fire(&mut self, what: &'static str) {
        *self.fired.entry(what).or_insert(0) += 1;
    }

    /// Execute one command.
    fn exec(&mut self, a: &[Vec<u8>], out: &mut Vec<u8>) {
        self.cmds += 1;
        let name = String::from_utf8_lossy(&a[0]).to_uppercase();
        let int = |out: &mut Vec<u8>, n: i64| out.extend_from_slice(format!(":{n}\r\n").as_bytes());
        match (name.as_str(), a.len()) {
            ("CLIENT", _) | ("SELECT", _) | ("AUTH", _) => out.extend_from_slice(b"+OK\r\n"),
            ("PING", 1) => out.extend_from_slice(b"+PONG\r\n"),
            ("LPUSH", n) | ("RPUSH", n) if n >= 3 => {
                let l = self.lists.entry(a[1].clone()).or_default();
                for v in &a[2..] {
                    if name == "LPUSH" { l.push_front(v.clone()) } else { l.push_back(v.clone()) }
                }
                let n = l.len() as i64;
                int(out, n);
            }
            ("LLEN", 2) => int(out, self.lists.get(&a[1]).map(|l| l.len()).unwrap_or(0) as i64),
            ("LRANGE", 4) => {
                let empty = VecDeque::new();
                let l = self.lists.get(&a[1]).unwrap_or(&empty);
                let n = l.len() as i64;
                let fix = |i: i64| if i < 0 { n + i } else { i };
                let (mut x, mut y) = (fix(num(&a[2])), fix(num(&a[3])));
                x = x.max(0);
                y = y.min(n - 1);
                let items: Vec<&Vec<u8>> = if x > y || x >= n { vec![] } else { (x..=y).map(|i| &l[i as usize]).collect() };
                out.extend_from_slice(format!("*{}\r\n", items.len()).as_bytes());
                for i in items {
                    bulk(out, i);
                }
            }
            ("LREM", 4) => {
                let c = num(&a[2]);
                let mut removed = 0;
                if let Some(l) = self.lists.get_mut(&a[1]) {
                    let limit = if c == 0 { usize::MAX } else { c.unsigned_abs() as usize };
                    let mut idx: Vec<usize> = (0..l.len()).filter(|i| l[*i] == a[3]).collect();
                    if c < 0 {
                        idx.reverse();
                    }
                    idx.truncate(limit);
                    idx.sort();
                    for i in idx.iter().rev() {
                        l.remove(*i);
                        removed += 1;
                    }
                }
                self.gc(&a[1]);
                int(out, removed);
            }
            ("LMOVE", 5) => {
                let left = |x: &[u8]| x.eq_ignore_ascii_case(b"LEFT");
                let item = match self.lists.get_mut(&a[1]) {
                    Some(l) => if left(&a[3]) { l.pop_front() } else { l.pop_back() },
                    None => None,
                };
                match item {
                    Some(v) => {
                        let l = self.lists.entry(a[2].clone()).or_default();
                        if left(&a[4]) { l.push_front(v.clone()) } else { l.push_back(v.clone()) }
                        self.gc(&a[1]);
                        bulk(out, &v);
                    }
                    None => {
                        self.gc(&a[1]);
                        out.extend_from_slice(b"$-1\r\n")
                    }
                }
            }
            ("LPOP", 2) | ("RPOP", 2) => {
                let item = match self.lists.get_mut(&a[1]) {
                    Some(l) => if name == "LPOP" { l.pop_front() } else { l.pop_back() },
                    None => None,
                };
                self.gc(&a[1]);
                match item {
                    Some(v) => bulk(out, &v),
                    None => out.extend_from_slice(b"$-1\r\n"),
                }
            }
            ("RPOPLPUSH", 3) => {
                let b = vec![b"LMOVE".to_vec(), a[1].clone(), a[2].clone(), b"RIGHT".to_vec(), b"LEFT".to_vec()];
                self.exec(&b, out);
            }
            ("HSET", n) if n >= 4 && n % 2 == 0 => {
                let mut added = 0;
                for kv in a[2..].chunks(2) {
                    if self.hashes.entry(a[1].clone()).or_default().insert(kv[0].clone(), kv[1].clone()).is_none() {
                        added += 1;
                    }
                    crate::backend::on_stored_bytes(&kv[1], self.call);
                }
                int(out, added);
            }
            ("HGET", 3) => match self.hashes.get(&a[1]).and_then(|h| h.get(&a[2])) {
                Some(v) => bulk(out, v),
                None => out.extend_from_slice(b"$-1\r\n"),
            },
            ("HEXISTS", 3) => int(out, self.hashes.get(&a[1]).map(|h| h.contains_key(&a[2])).unwrap_or(false) as i64),
            ("HDEL", 3) => {
                let n = self.hashes.get_mut(&a[1]).and_then(|h| h.remove(&a[2])).is_some();
                int(out, n as i64);
            }
            ("DEL", _) => {
                let mut n = 0;
                for k in &a[1..] {
                    n += (self.lists.remove(k).is_some() | self.hashes.remove(k).is_some()) as i64;
                }
                int(out, n);
            }
            ("RPUSHX", 3) | ("LPUSHX", 3) => {
                let n = match self.lists.get_mut(&a[1]) {
                    Some(l) => {
                        if name == "LPUSHX" { l.push_front(a[2].clone()) } else { l.push_back(a[2].clone()) }
                        l.len() as i64
                    }
                    None => 0,
                };
                int(out, n);
            }
            ("LPOP", 3) | ("RPOP", 3) => {
                let mut items = vec![];
                if let Some(l) = self.lists.get_mut(&a[1]) {
                    for _ in 0..num(&a[2]) {
                        match if name == "LPOP" { l.pop_front() } else { l.pop_back() } {
                            Some(v) => items.push(v),
                            None => break,
                        }
                    }
                }
                self.gc(&a[1]);
                if items.is_empty() {
                    out.extend_from_slice(b"*-1\r\n");
                } else {
                    out.extend_from_slice(format!("*{}\r\n", items.len()).as_bytes());
                    items.iter().for_each(|i| bulk(out, i));
                }
            }
            ("LINDEX", 3) => {
                let i = num(&a[2]);
                let v = self.lists.get(&a[1]).and_then(|l| l.get(if i < 0 { (l.len() as i64 + i) as usize } else { i as usize }));
                match v {
                    Some(v) => bulk(out, v),
                    None => out.extend_from_slice(b"$-1\r\n"),
                }
            }
            ("LTRIM", 4) => {
                if let Some(l) = self.lists.get_mut(&a[1]) {
                    let n = l.len() as i64;
                    let fix = |i: i64| if i < 0 { n + i } else { i };
                    let (x, y) = (fix(num(&a[2])).max(0), fix(num(&a[3])).min(n - 1));
                    *l = if x > y { VecDeque::new() } else { l.iter().skip(x as usize).take((y - x + 1) as usize).cloned().collect() };
                }
                self.gc(&a[1]);
                out.extend_from_slice(b"+OK\r\n");
            }
            ("EXISTS", 2) => int(out, (self.lists.contains_key(&a[1]) || self.hashes.contains_key(&a[1])) as i64),
            ("HLEN", 2) => int(out, self.hashes.get(&a[1]).map(|h| h.len()).unwrap_or(0) as i64),
            _ => out.extend_from_slice(format!("-ERR unknown command '{name}'\r\n").as_bytes()),
        }
    }
    /// Execute, or queue inside a transaction.
    fn exec_on(&mut self, fd: c_int, cmd: Vec<Vec<u8>>, out: &mut Vec<u8>) {
        let name = String::from_utf8_lossy(&cmd[0]).to_uppercase();
        let c = self.conns.get_mut(&fd).unwrap();
        match (name.as_str(), c.multi.is_some()) {
            ("MULTI", false) => {
                c.multi = Some(vec![]);
                out.extend_from_slice(b"+OK\r\n");
            }
            ("DISCARD", true) => {
                c.multi = None;
                out.extend_from_slice(b"+OK\r\n");
            }
            ("EXEC", true) => {
                let q = c.multi.take().unwrap();
                out.extend_from_slice(format!("*{}\r\n", q.len()).as_bytes());
                for x in q {
                    self.exec(&x, out);
                }
            }
            (_, true) => {
                c.multi.as_mut().unwrap().push(cmd);
                out.extend_from_slice(b"+QUEUED\r\n");
            }
            _ => self.exec(&cmd, out),
        }
    }
    fn gc(&mut self, k: &[u8]) {
        if self.lists.get(k).map(|l| l.is_empty()).unwrap_or(false) {
            self.lists.remove(k);
        }
    }

    fn feed(&mut self, fd: c_int) {
        loop {
            let (cmd, used) = match parse(&self.conns[&fd].input) {
                Some(x) => x,
                None => return,
            };
            self.conns.get_mut(&fd).unwrap().input.drain(..used);
            self.op_cmds += 1;
            let k = self.op_cmds - 1;
            let fault = self.fault;
            let cut = k == self.cut_at;
            match fault {
                Some(Fault::CutBefore) if cut => {
                    self.fire("conn_reset_before_apply");
                    let c = self.conns.get_mut(&fd).unwrap();
                    c.dead = true;
                    c.output.clear();
                    return;
                }
                _ => {}
            }
            if self.rival.as_ref().map(|r| r.0 <= k).unwrap_or(false) {
                self.fire("rival_command");
                self.rival_ran = true;
                for c in self.rival.take().unwrap().1 {
                    self.exec(&c, &mut vec![]);
                }
            }
            let mut out = vec![];
            if fault == Some(Fault::ErrReply) && cut {
                self.fire("error_reply");
                out.extend_from_slice(b"-ERR injected error\r\n");
            } else {
                self.exec_on(fd, cmd, &mut out);
            }
            match fault {
                Some(Fault::CutAfter) if cut => {
                    self.fire("conn_reset_after_apply");
                    let c = self.conns.get_mut(&fd).unwrap();
                    c.dead = true;
                    c.output.clear();
                    return;
                }
                Some(Fault::CutMid) if cut => {
                    self.fire("conn_cut_mid_reply");
                    let c = self.conns.get_mut(&fd).unwrap();
                    let keep = out.len() / 2;
                    c.output.extend(&out[..keep]);
                    c.eof = true;
                    c.input.clear();
                    return;
                }
                _ => {}
            }
            self.conns.get_mut(&fd).unwrap().output.extend(out);
        }
    }
}

fn parse(b: &[u8]) -> Option<(Vec<Vec<u8>>, usize)> {
    let line = |from: usize| -> Option<(i64, usize)> {
        let p = b[from..].windows(2).position(|w| w == b"\r\n")? + from;
        Some((num(&b[from + 1..p]), p + 2))
    };
    if b.is_empty() || b[0] != b'*' {
        return None;
    }
    let (n, mut at) = line(0)?;
    let mut v = vec![];
    for _ in 0..n {
        if at >= b.len() {
            return None;
        }
        let (len, next) = line(at)?;
        let end = next + len as usize;
        if b.len() < end + 2 {
            return None;
        }
        v.push(b[next..end].to_vec());
        at = end + 2;
    }
    Some((v, at))
}

// ------------------------------------------------------------------ sockets

fn err(e: c_int) -> c_int {
    unsafe { *libc::__errno_location() = e };
    -1
}
use detsim::interpose::raw_ret as sys;

fn is_fake(fd: c_int) -> bool {
    fd >= 1_000_000
}

#[no_mangle]
pub unsafe extern "C" fn socket(domain: c_int, ty: c_int, proto: c_int) -> c_int {
    if detsim::active() && (domain == libc::AF_INET || domain == libc::AF_INET6) {
        return s(|s| {
            let fd = s.next_fd.max(1_000_000);
            s.next_fd = fd + 1;
            s.conns.insert(fd, Conn::default());
            fd
        });
    }
    sys(libc::SYS_socket, [domain as usize, ty as usize, proto as usize, 0, 0, 0]) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const libc::sockaddr, len: socklen_t) -> c_int {
    if is_fake(fd) {
        return s(|s| {
            if s.fault == Some(Fault::Refused) || !s.on {
                s.fire("conn_refused");
                return err(libc::ECONNREFUSED);
            }
            if let Some(c) = s.conns.get_mut(&fd) {
                c.connected = true;
            }
            0
        });
    }
    sys(libc::SYS_connect, [fd as usize, addr as usize, len as usize, 0, 0, 0]) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: size_t, flags: c_int) -> ssize_t {
    if is_fake(fd) {
        let data = std::slice::from_raw_parts(buf as *const u8, len);
        return s(|s| {
            let fault = s.fault;
            let c = match s.conns.get_mut(&fd) {
                Some(c) => c,
                None => return err(libc::EBADF) as ssize_t,
            };
            if c.dead || c.eof {
                return err(libc::EPIPE) as ssize_t;
            }
            c.toggles += 1;
            let odd = c.toggles % 2 == 1;
            let n = match fault {
                Some(Fault::Intr) if odd => {
                    s.fire("eintr");
                    return err(libc::EINTR) as ssize_t;
                }
                Some(Fault::Frag(n)) => {
                    s.fire("short_write");
                    len.min(n as usize)
                }
                _ => len,
            };
            s.conns.get_mut(&fd).unwrap().input.extend_from_slice(&data[..n]);
            s.feed(fd);
            n as ssize_t
        });
    }
    sys(libc::SYS_sendto, [fd as usize, buf as usize, len, flags as usize, 0, 0]) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int) -> ssize_t {
    if is_fake(fd) {
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        return s(|s| {
            let fault = s.fault;
            let c = match s.conns.get_mut(&fd) {
                Some(c) => c,
                None => return err(libc::EBADF) as ssize_t,
            };
            if c.dead {
                return err(libc::ECONNRESET) as ssize_t;
            }
            // (no EINTR here: redis 0.25.4 takes it for a failed read, and while it sets the connection
            // up it ignores that failure and reads the replies out of step from then on; DESIGN.md)
            if c.output.is_empty() {
                if c.eof {
                    return 0;
                }
                // a real client would wait for ever for a reply nobody owes it
                s.blocked += 1;
                return err(libc::ETIMEDOUT) as ssize_t;
            }
            let mut n = len.min(c.output.len());
            if let Some(Fault::Frag(k)) = fault {
                if n > k as usize {
                    n = k as usize;
                }
            }
            for o in out.iter_mut().take(n) {
                *o = c.output.pop_front().unwrap();
            }
            if let Some(Fault::Frag(_)) = fault {
                s.fire("short_read");
            }
            n as ssize_t
        });
    }
    sys(libc::SYS_recvfrom, [fd as usize, buf as usize, len, flags as usize, 0, 0]) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if is_fake(fd) {
        s(|s| s.conns.remove(&fd));
        return 0;
    }
    sys(libc::SYS_close, [fd as usize, 0, 0, 0, 0, 0]) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if is_fake(fd) {
        return 0;
    }
    sys(libc::SYS_shutdown, [fd as usize, how as usize, 0, 0, 0, 0]) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, l: c_int, n: c_int, v: *const c_void, len: socklen_t) -> c_int {
    if is_fake(fd) {
        return 0;
    }
    sys(libc::SYS_setsockopt, [fd as usize, l as usize, n as usize, v as usize, len as usize, 0]) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, l: c_int, n: c_int, v: *mut c_void, len: *mut socklen_t) -> c_int {
    if is_fake(fd) {
        if !v.is_null() && !len.is_null() && *len >= 4 {
            *(v as *mut c_int) = 0;
        }
        return 0;
    }
    sys(libc::SYS_getsockopt, [fd as usize, l as usize, n as usize, v as usize, len as usize, 0]) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: usize) -> c_int {
    if is_fake(fd) {
        return 0;
    }
    sys(libc::SYS_ioctl, [fd as usize, req as usize, arg, 0, 0, 0]) as c_int
}
/// connect_timeout waits with poll
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: c_int) -> c_int {
    if n == 1 && is_fake((*fds).fd) {
        (*fds).revents = (*fds).events;
        return 1;
    }
    sys(libc::SYS_poll, [fds as usize, n as usize, timeout as usize, 0, 0, 0]) as c_int
}

unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if is_fake(fd) {
        return 0;
    }
    sys(libc::SYS_fcntl, [fd as usize, cmd as usize, arg, 0, 0, 0]) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    do_fcntl(fd, cmd, arg)
}
