//! Devices for the code under test: sparse storage with pseudo-random background, fault plans and an operation budget.
use crate::block_device::{BlockCount, BlockDevice, BlockNumber, BlockSize};
use crate::engine::{hash64, splitmix, FuelExhausted};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::io::{self, Read, Seek, SeekFrom};
use std::rc::Rc;

const PAGE: u64 = 512;

/// Bytes of a device: explicitly written pages over a pseudo-random (or zero) background.
#[derive(Clone)]
pub struct Storage {
    pub len: u64,
    pub seed: u64,
    pub zero: bool,
    pages: HashMap<u64, Box<[u8; PAGE as usize]>>,
    /// Computes pages not written; says whether it did (else the background shows).
    pub lazy: Option<Rc<dyn Fn(u64, &mut [u8; PAGE as usize]) -> bool>>,
}

impl Storage {
    pub fn new(len: u64, seed: u64) -> Self {
        Storage { len, seed, zero: false, pages: HashMap::new(), lazy: None }
    }
    pub fn zeroed(len: u64) -> Self {
        Storage { len, seed: 0, zero: true, pages: HashMap::new(), lazy: None }
    }
    pub fn from_bytes(b: &[u8]) -> Self {
        let mut s = Self::zeroed(b.len() as u64);
        s.write(0, b);
        s
    }
    fn background(&self, page: u64, out: &mut [u8; PAGE as usize]) {
        if let Some(f) = &self.lazy {
            if f(page, out) {
                return;
            }
        }
        if self.zero {
            out.fill(0);
            return;
        }
        let mut st = self.seed ^ page.wrapping_mul(0xd6e8feb86659fd93);
        st = st.rotate_left(31).wrapping_mul(0x9e3779b97f4a7c15);
        for c in out.chunks_exact_mut(8) {
            c.copy_from_slice(&splitmix(&mut st).to_le_bytes());
        }
    }
    /// Reads what lies within the device; the rest of buf is left alone. Returns the number of bytes read.
    pub fn read(&self, pos: u64, buf: &mut [u8]) -> usize {
        if pos >= self.len {
            return 0;
        }
        let n = (buf.len() as u64).min(self.len - pos) as usize;
        let mut done = 0;
        let mut tmp = [0u8; PAGE as usize];
        while done < n {
            let at = pos + done as u64;
            let (page, off) = (at / PAGE, (at % PAGE) as usize);
            let k = (PAGE as usize - off).min(n - done);
            match self.pages.get(&page) {
                Some(p) => buf[done..done + k].copy_from_slice(&p[off..off + k]),
                None => {
                    self.background(page, &mut tmp);
                    buf[done..done + k].copy_from_slice(&tmp[off..off + k]);
                }
            }
            done += k;
        }
        n
    }
    pub fn get(&self, pos: u64, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        assert_eq!(self.read(pos, &mut v), n, "harness: read past end");
        v
    }
    pub fn write(&mut self, pos: u64, data: &[u8]) {
        assert!(pos + data.len() as u64 <= self.len, "harness: write past end");
        let mut done = 0;
        while done < data.len() {
            let at = pos + done as u64;
            let (page, off) = (at / PAGE, (at % PAGE) as usize);
            let k = (PAGE as usize - off).min(data.len() - done);
            if !self.pages.contains_key(&page) {
                let mut b = Box::new([0u8; PAGE as usize]);
                self.background(page, &mut b);
                self.pages.insert(page, b);
            }
            self.pages.get_mut(&page).unwrap()[off..off + k].copy_from_slice(&data[done..done + k]);
            done += k;
        }
    }
    pub fn xor(&mut self, pos: u64, mask: u8) {
        let mut b = self.get(pos, 1);
        b[0] ^= mask;
        self.write(pos, &b);
    }
    /// Pages that were written, in order.
    pub fn written(&self) -> Vec<(u64, &[u8; PAGE as usize])> {
        let mut v: Vec<_> = self.pages.iter().map(|(k, p)| (*k * PAGE, &**p)).collect();
        v.sort_by_key(|x| x.0);
        v
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.get(0, self.len as usize)
    }
}

/// What a device does besides holding bytes; shared by all clones of a device.
#[derive(Default)]
pub struct Ctl {
    pub ops: Cell<u64>,
    pub fuel: Cell<Option<u64>>,
    /// Fail operation number n (counting seeks, reads, block reads, clones, geometry queries), and the next `fail_len - 1`.
    pub fail_at: Cell<Option<u64>>,
    pub fail_len: Cell<u64>,
    pub failed: Cell<bool>,
    /// Byte range whose reads fail.
    pub bad: RefCell<Vec<(u64, u64)>>,
    /// Read at most this many bytes per read call (0: no limit).
    pub short: Cell<usize>,
    /// The kind of the errors, or else they are those of a failing disk (EIO).
    pub fail_kind: Cell<Option<io::ErrorKind>>,
    pub bytes_read: Cell<u64>,
    pub reads: RefCell<Option<Vec<(u64, u64)>>>,
    /// A read reached the end of the device before giving anything.
    pub hit_eof: Cell<bool>,
    /// All clones share one position, as duplicated file descriptors do.
    pub shared: Cell<bool>,
    pub shared_pos: Cell<u64>,
}

impl Ctl {
    fn op(&self) -> io::Result<()> {
        let n = self.ops.get();
        self.ops.set(n + 1);
        if let Some(f) = self.fuel.get() {
            if f == 0 {
                std::panic::panic_any(FuelExhausted);
            }
            self.fuel.set(Some(f - 1));
        }
        if let Some(k) = self.fail_at.get() {
            if n >= k && n - k < self.fail_len.get() {
                self.failed.set(true);
                return Err(self.error());
            }
        }
        Ok(())
    }
    fn check_range(&self, pos: u64, n: u64) -> io::Result<()> {
        if let Some(r) = self.reads.borrow_mut().as_mut() {
            r.push((pos, n));
        }
        self.bytes_read.set(self.bytes_read.get() + n);
        if self.bad.borrow().iter().any(|(s, e)| pos < *e && pos.saturating_add(n) > *s) {
            self.failed.set(true);
            return Err(self.error());
        }
        Ok(())
    }
    fn error(&self) -> io::Error {
        match self.fail_kind.get() {
            Some(kind) => kind.into(),
            None => io::Error::from_raw_os_error(5),
        }
    }
    /// Errors of any kind other than Interrupted, which may be tried again for ever.
    pub fn gen_fail_kind(&self, g: &mut crate::engine::G) {
        use io::ErrorKind::*;
        let kinds = [None, Some(Other), Some(UnexpectedEof), Some(InvalidInput), Some(InvalidData), Some(WouldBlock), Some(TimedOut), Some(PermissionDenied)];
        self.fail_kind.set(g.pick(&kinds));
    }
    pub fn set_fuel(&self, n: u64) {
        self.fuel.set(Some(n));
    }
    pub fn no_fuel(&self) {
        self.fuel.set(None);
    }
}

pub struct Dev {
    pub store: Rc<Storage>,
    pub ctl: Rc<Ctl>,
    pub block_size: u32,
    pos: u64,
}

impl Dev {
    pub fn new(store: Rc<Storage>, block_size: u32) -> Self {
        Dev { store, ctl: Rc::new(Ctl::default()), block_size, pos: 0 }
    }
    pub fn with_ctl(store: Rc<Storage>, block_size: u32, ctl: Rc<Ctl>) -> Self {
        Dev { store, ctl, block_size, pos: 0 }
    }
}

impl Dev {
    fn pos(&self) -> u64 {
        if self.ctl.shared.get() { self.ctl.shared_pos.get() } else { self.pos }
    }
    fn set_pos(&mut self, n: u64) {
        self.pos = n;
        self.ctl.shared_pos.set(n);
    }
}

/// A failed read may leave anything in the buffer it was given.
fn scribble(buf: &mut [u8]) {
    let n = buf.len().div_ceil(2);
    buf[..n].fill(0xbd);
}

impl BlockDevice for Dev {
    fn block_size(&self) -> io::Result<BlockSize> {
        Ok(BlockSize(self.block_size))
    }
    fn block_count(&self) -> io::Result<BlockCount> {
        Ok(BlockCount(self.store.len / self.block_size as u64))
    }
    fn read_block(&mut self, n: BlockNumber, buf: &mut [u8]) -> io::Result<usize> {
        self.ctl.op().inspect_err(|_| scribble(buf))?;
        let bs = self.block_size as usize;
        if buf.len() < bs {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        let pos = u64::from(n).checked_mul(bs as u64).ok_or(io::ErrorKind::InvalidInput)?;
        self.ctl.check_range(pos, bs as u64).inspect_err(|_| scribble(buf))?;
        if self.store.read(pos, &mut buf[..bs]) < bs {
            return Err(io::ErrorKind::UnexpectedEof.into());
        }
        Ok(bs)
    }
    fn try_clone(&self) -> io::Result<Self> {
        self.ctl.op()?;
        Ok(Dev { store: self.store.clone(), ctl: self.ctl.clone(), block_size: self.block_size, pos: self.pos() })
    }
}

impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.ctl.op().inspect_err(|_| scribble(buf))?;
        let mut n = buf.len();
        if self.ctl.short.get() > 0 {
            n = n.min(self.ctl.short.get());
        }
        let n = (n as u64).min(self.store.len.saturating_sub(self.pos())) as usize;
        if n == 0 && !buf.is_empty() {
            self.ctl.hit_eof.set(true);
        }
        self.ctl.check_range(self.pos(), n as u64).inspect_err(|_| scribble(buf))?;
        let n = self.store.read(self.pos(), &mut buf[..n]);
        self.set_pos(self.pos() + n as u64);
        Ok(n)
    }
}

impl Seek for Dev {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.ctl.op()?;
        let new = match p {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::End(o) => self.store.len.checked_add_signed(o),
            SeekFrom::Current(o) => self.pos().checked_add_signed(o),
        };
        match new.filter(|n| *n <= i64::MAX as u64) {
            Some(n) => {
                self.set_pos(n);
                Ok(n)
            }
            None => Err(io::ErrorKind::InvalidInput.into()),
        }
    }
}
