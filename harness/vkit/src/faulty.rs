//! An in-memory file that transfers short, gets interrupted and fails on demand.
use crate::Rng;
use std::cell::RefCell;
use std::io::{Cursor, Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Debug, Default, Clone, Copy)]
pub struct Plan {
    /// seeds the lengths of short transfers and the interruptions
    pub seed: u64,
    /// transfers at most this many bytes at once (0: no short transfers)
    pub chop: usize,
    /// every n-th transfer is interrupted once (0: never)
    pub interrupt: u64,
    /// the n-th operation fails
    pub fail_op: Option<u64>,
    /// ... and every one after it
    pub sticky: bool,
    /// only count and fail these operations (None: all)
    pub only: Option<Op>,
    /// the file cannot grow beyond this many bytes
    pub capacity: Option<u64>,
    /// flushing fails
    pub flush: bool,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Op {
    Read,
    Write,
    Seek,
}

#[derive(Debug)]
struct State {
    file: Cursor<Vec<u8>>,
    plan: Plan,
    rng: Rng,
    ops: u64,
    failed: u64,
    short: u64,
    interrupted: bool,
}

/// handle to the file; clones share it
#[derive(Debug, Clone)]
pub struct FaultIo(Rc<RefCell<State>>);

impl FaultIo {
    pub fn new(bytes: Vec<u8>, plan: Plan) -> Self {
        FaultIo(Rc::new(RefCell::new(State { file: Cursor::new(bytes), plan, rng: Rng::new(plan.seed), ops: 0, failed: 0, short: 0, interrupted: false })))
    }
    pub fn content(&self) -> Vec<u8> {
        self.0.borrow().file.get_ref().clone()
    }
    pub fn ops(&self) -> u64 {
        self.0.borrow().ops
    }
    /// hard failures handed out so far
    pub fn failed(&self) -> u64 {
        self.0.borrow().failed
    }
    /// short transfers and interruptions so far
    pub fn short(&self) -> u64 {
        self.0.borrow().short
    }
}

impl State {
    fn gate(&mut self, op: Op) -> Result<()> {
        if self.plan.only.is_none() || self.plan.only == Some(op) {
            let n = self.ops;
            self.ops += 1;
            if let Some(f) = self.plan.fail_op {
                if n == f || (self.plan.sticky && n > f) {
                    self.failed += 1;
                    return Err(Error::new(ErrorKind::Other, "injected failure"));
                }
            }
        }
        if op != Op::Seek && self.plan.interrupt > 0 {
            // never twice in a row
            if !self.interrupted && self.rng.next() % self.plan.interrupt == 0 {
                self.interrupted = true;
                self.short += 1;
                return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
            }
            self.interrupted = false;
        }
        Ok(())
    }
    fn len(&mut self, want: usize) -> usize {
        if self.plan.chop == 0 || want <= 1 {
            return want;
        }
        let n = 1 + (self.rng.next() % self.plan.chop as u64) as usize;
        if n < want {
            self.short += 1;
        }
        n.min(want)
    }
}

impl Read for FaultIo {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let mut st = self.0.borrow_mut();
        st.gate(Op::Read)?;
        let n = st.len(buf.len());
        st.file.read(&mut buf[..n])
    }
}

impl Write for FaultIo {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let mut st = self.0.borrow_mut();
        st.gate(Op::Write)?;
        let mut n = st.len(buf.len());
        if let Some(cap) = st.plan.capacity {
            let left = cap.saturating_sub(st.file.position()) as usize;
            if left == 0 && n > 0 {
                st.failed += 1;
                return Err(Error::new(ErrorKind::Other, "no space left"));
            }
            n = n.min(left);
        }
        st.file.write(&buf[..n])
    }
    fn flush(&mut self) -> Result<()> {
        let mut st = self.0.borrow_mut();
        if st.plan.flush {
            st.failed += 1;
            return Err(Error::new(ErrorKind::Other, "injected flush failure"));
        }
        Ok(())
    }
}

impl Seek for FaultIo {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let mut st = self.0.borrow_mut();
        st.gate(Op::Seek)?;
        st.file.seek(p)
    }
}
