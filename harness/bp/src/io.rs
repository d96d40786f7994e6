//! Scripted readers and writers: each call performs the next step of a schedule (cyclically).
//!   n > 0 : transfer at most n bytes     0 : transfer nothing (writer: Ok(0))
//!   -1    : ErrorKind::Interrupted       -2 : ErrorKind::Other (sticky)
use std::io::{Error, ErrorKind, Read, Result, Write};

pub struct SReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub sched: Vec<i64>,
    pub call: usize,
    pub failed: bool,
}
impl<'a> SReader<'a> {
    pub fn new(data: &'a [u8], sched: Vec<i64>) -> Self {
        SReader { data, pos: 0, sched, call: 0, failed: false }
    }
}
impl<'a> Read for SReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if self.failed {
            return Err(Error::new(ErrorKind::Other, "scripted"));
        }
        let step = if self.sched.is_empty() {
            i64::MAX
        } else {
            self.sched[self.call % self.sched.len()]
        };
        self.call += 1;
        match step {
            -1 => Err(Error::new(ErrorKind::Interrupted, "scripted")),
            -2 => {
                self.failed = true;
                Err(Error::new(ErrorKind::Other, "scripted"))
            }
            n => {
                let n = (n.max(1) as u64).min(buf.len() as u64) as usize;
                let n = n.min(self.data.len() - self.pos);
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
        }
    }
}

pub struct SWriter {
    pub data: Vec<u8>,
    pub sched: Vec<i64>,
    pub call: usize,
    pub failed: bool,
    pub hard: bool,
}
impl SWriter {
    pub fn new(sched: Vec<i64>) -> Self {
        SWriter { data: vec![], sched, call: 0, failed: false, hard: false }
    }
}
impl Write for SWriter {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        if self.failed {
            return Err(Error::new(ErrorKind::Other, "scripted"));
        }
        let step = if self.sched.is_empty() {
            i64::MAX
        } else {
            self.sched[self.call % self.sched.len()]
        };
        self.call += 1;
        match step {
            -1 => Err(Error::new(ErrorKind::Interrupted, "scripted")),
            -2 => {
                self.failed = true;
                self.hard = true;
                Err(Error::new(ErrorKind::Other, "scripted"))
            }
            0 => {
                self.hard = true;
                Ok(0)
            }
            n => {
                let n = (n as u64).min(buf.len() as u64) as usize;
                self.data.extend_from_slice(&buf[..n]);
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

pub fn sched(j: &serde_json::Value) -> Vec<i64> {
    j.as_array()
        .map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect())
        .unwrap_or_default()
}
