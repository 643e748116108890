//! Instrumented custom streams: every callback is counted and can be made to misbehave.
use libc::c_void;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Default)]
pub struct Mem {
    pub data: Vec<u8>,
    pub pos: i64,
    pub reads: u64,
    pub writes: u64,
    pub skips: u64,
    pub seeks: u64,
    pub chunks: Vec<usize>,
    /// skips come in chunks as well
    pub steps: bool,
    pub ci: usize,
    pub fail_read: u64,
    pub fail_write: u64,
    pub fail_skip: u64,
    pub fail_seek: u64,
    pub sticky: bool,
    pub failed: u64,
    pub eof_zero: bool,
    pub avail: usize,
    pub freed: u64,
    pub bad: u64,
    pub capacity: usize,
    pub log: Vec<(char, i64, i64)>,
    pub logging: bool,
}

pub type Shared = Rc<RefCell<Mem>>;

impl Mem {
    fn chunk(&mut self, want: usize) -> usize {
        if self.chunks.is_empty() {
            return want;
        }
        let n = self.chunks[self.ci % self.chunks.len()];
        self.ci += 1;
        want.min(n.max(1))
    }
    fn hit(&mut self, n: u64, at: u64) -> bool {
        let h = at != 0 && (n == at || (self.sticky && n > at));
        if h {
            self.failed += 1;
        }
        h
    }
    fn note(&mut self, k: char, a: i64, b: i64) {
        if self.logging && self.log.len() < 4000 {
            self.log.push((k, a, b));
        }
    }
}

unsafe fn me<'a>(d: *mut c_void) -> std::cell::RefMut<'a, Mem> {
    (*(d as *const RefCell<Mem>)).borrow_mut()
}

pub unsafe extern "C" fn read_fn(buf: *mut c_void, n: usize, d: *mut c_void) -> usize {
    let mut m = me(d);
    m.reads += 1;
    let k = m.reads;
    let at = m.fail_read;
    if m.hit(k, at) {
        m.note('R', n as i64, -1);
        return usize::MAX;
    }
    let end = m.avail.min(m.data.len()) as i64;
    if m.pos < 0 || m.pos >= end {
        m.note('r', n as i64, 0);
        return if m.eof_zero { 0 } else { usize::MAX };
    }
    let want = n.min((end - m.pos) as usize);
    let k = m.chunk(want);
    std::ptr::copy_nonoverlapping(m.data.as_ptr().add(m.pos as usize), buf as *mut u8, k);
    m.pos += k as i64;
    m.note('r', n as i64, k as i64);
    k
}

pub unsafe extern "C" fn write_fn(buf: *mut c_void, n: usize, d: *mut c_void) -> usize {
    let mut m = me(d);
    m.writes += 1;
    let k = m.writes;
    let at = m.fail_write;
    if m.hit(k, at) {
        m.note('W', n as i64, -1);
        return usize::MAX;
    }
    let k = m.chunk(n);
    let end = m.pos as usize + k;
    if m.capacity != 0 && end > m.capacity {
        m.failed += 1;
        return usize::MAX;
    }
    if m.data.len() < end {
        m.data.resize(end, 0xEE);
    }
    let p = m.pos as usize;
    m.data[p..end].copy_from_slice(std::slice::from_raw_parts(buf as *const u8, k));
    m.pos += k as i64;
    m.note('w', n as i64, k as i64);
    k
}

pub unsafe extern "C" fn skip_fn(n: i64, d: *mut c_void) -> i64 {
    let mut m = me(d);
    m.skips += 1;
    let k = m.skips;
    let at = m.fail_skip;
    if m.hit(k, at) {
        m.note('S', n, -1);
        return -1;
    }
    if n < 0 {
        m.bad += 1;
    }
    if m.pos + n < 0 {
        return -1;
    }
    let k = if m.steps && n > 1 { m.chunk(n as usize) as i64 } else { n };
    m.pos += k;
    m.note('s', n, k);
    k
}

pub unsafe extern "C" fn seek_fn(n: i64, d: *mut c_void) -> i32 {
    let mut m = me(d);
    m.seeks += 1;
    let k = m.seeks;
    let at = m.fail_seek;
    if m.hit(k, at) {
        m.note('K', n, -1);
        return 0;
    }
    if n < 0 {
        return 0;
    }
    m.pos = n;
    m.note('k', n, n);
    1
}

pub unsafe extern "C" fn free_fn(d: *mut c_void) {
    me(d).freed += 1;
}
