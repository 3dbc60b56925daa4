//! A backend in memory, with scripted faults and counters.

use ruplicity::Backend;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::io::{self, ErrorKind, Read};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::Path;
use std::rc::Rc;

pub type Files = BTreeMap<Vec<u8>, Rc<Vec<u8>>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    Open(ErrorKind),
    /// fails once this many bytes have been delivered
    Read(usize, ErrorKind),
}

#[derive(Default)]
pub struct Store {
    pub files: RefCell<Files>,
    /// listing order; names not in `files` are listed as well (directories and the like)
    pub order: RefCell<Vec<Vec<u8>>>,
    pub faults: RefCell<BTreeMap<Vec<u8>, Fault>>,
    pub list_fault: Cell<Option<ErrorKind>>,
    pub opens: RefCell<BTreeMap<Vec<u8>, usize>>,
    /// how often the names were asked for
    pub lists: Cell<usize>,
    /// files opened at least once without a failure
    pub served: RefCell<std::collections::BTreeSet<Vec<u8>>>,
    /// piece sizes, cycled; empty means as much as asked for, 0 is a read that is interrupted
    /// (one that is not must follow)
    pub chunks: RefCell<Vec<usize>>,
}

/// Shared handle: cloning gives the same store.
#[derive(Clone)]
pub struct Mem(pub Rc<Store>);

impl Mem {
    pub fn new(files: Files) -> Mem {
        let order = files.keys().cloned().collect();
        Mem(Rc::new(Store { files: RefCell::new(files), order: RefCell::new(order), ..Store::default() }))
    }
    pub fn with_order(files: Files, order: Vec<Vec<u8>>) -> Mem {
        let m = Mem::new(files);
        *m.0.order.borrow_mut() = order;
        m
    }
    pub fn served(&self, name: &[u8]) -> bool {
        self.0.served.borrow().contains(name)
    }
    pub fn opens(&self, name: &[u8]) -> usize {
        self.0.opens.borrow().get(name).cloned().unwrap_or(0)
    }
}

impl std::fmt::Debug for Mem {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Mem")
    }
}

pub struct MemFile {
    data: Rc<Vec<u8>>,
    pos: usize,
    chunks: Vec<usize>,
    turn: usize,
    fail: Option<(usize, ErrorKind)>,
}

impl Read for MemFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len().min(self.data.len() - self.pos);
        if !self.chunks.is_empty() {
            let c = self.chunks[self.turn % self.chunks.len()];
            self.turn += 1;
            if c == 0 && self.chunks.iter().any(|c| *c > 0) {
                return Err(ErrorKind::Interrupted.into());
            }
            n = n.min(c.max(1));
        }
        if let Some((at, kind)) = self.fail {
            if self.pos >= at.min(self.data.len()) {
                return Err(io::Error::new(kind, "injected read failure"));
            }
            n = n.min(at - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

impl Backend for Mem {
    type FileName = OsString;
    type FileNameIter = Vec<OsString>;
    type FileStream = MemFile;

    fn file_names(&self) -> io::Result<Vec<OsString>> {
        self.0.lists.set(self.0.lists.get() + 1);
        if let Some(k) = self.0.list_fault.get() {
            return Err(io::Error::new(k, "injected listing failure"));
        }
        Ok(self.0.order.borrow().iter().map(|n| OsString::from_vec(n.clone())).collect())
    }

    fn open_file(&self, name: &Path) -> io::Result<MemFile> {
        let n = name.as_os_str().as_bytes().to_vec();
        *self.0.opens.borrow_mut().entry(n.clone()).or_default() += 1;
        let fault = self.0.faults.borrow().get(&n).cloned();
        if let Some(Fault::Open(k)) = fault {
            return Err(io::Error::new(k, "injected open failure"));
        }
        let data = self
            .0
            .files
            .borrow()
            .get(&n)
            .cloned()
            .ok_or_else(|| io::Error::new(ErrorKind::NotFound, "no such file in memory"))?;
        self.0.served.borrow_mut().insert(n);
        let fail = match fault {
            Some(Fault::Read(at, k)) => Some((at, k)),
            _ => None,
        };
        Ok(MemFile { data, pos: 0, chunks: self.0.chunks.borrow().clone(), turn: 0, fail })
    }
}
