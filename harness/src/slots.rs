//! Shared memory through which the watchdog sees what each explorer thread is doing.

use std::fs::OpenOptions;
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

pub const SLOT: usize = 4096;
pub const MAX_CHOICES: usize = 512;
pub const MAX_KEY: usize = 512;

#[repr(C)]
struct Raw {
    seq: AtomicU64,
    active: AtomicU32,
    len: AtomicU32,
    key_len: AtomicU32,
    pad: u32,
    choices: [u16; MAX_CHOICES],
    key: [u8; MAX_KEY],
}

#[derive(Clone, Copy)]
pub struct SlotRef(*mut Raw);
unsafe impl Send for SlotRef {}
unsafe impl Sync for SlotRef {}

impl SlotRef {
    pub fn begin(self) {
        unsafe {
            (*self.0).len.store(0, Ordering::SeqCst);
            (*self.0).key_len.store(0, Ordering::SeqCst);
            (*self.0).seq.fetch_add(1, Ordering::SeqCst);
            (*self.0).active.store(1, Ordering::SeqCst);
        }
    }
    pub fn push(self, v: u16) {
        unsafe {
            let n = (*self.0).len.load(Ordering::Relaxed) as usize;
            if n < MAX_CHOICES {
                (*self.0).choices[n] = v;
                (*self.0).len.store(n as u32 + 1, Ordering::SeqCst);
            }
        }
    }
    pub fn key(self, k: &str) {
        unsafe {
            let b = k.as_bytes();
            let n = b.len().min(MAX_KEY);
            (&mut (*self.0).key)[..n].copy_from_slice(&b[..n]);
            (*self.0).key_len.store(n as u32, Ordering::SeqCst);
            // A leaf may run many cases: naming one counts as progress.
            (*self.0).seq.fetch_add(1, Ordering::SeqCst);
        }
    }
    pub fn end(self) {
        unsafe { (*self.0).active.store(0, Ordering::SeqCst) }
    }
    pub fn snapshot(self) -> (u64, bool, Vec<u16>, String) {
        unsafe {
            let n = ((*self.0).len.load(Ordering::SeqCst) as usize).min(MAX_CHOICES);
            let k = ((*self.0).key_len.load(Ordering::SeqCst) as usize).min(MAX_KEY);
            (
                (*self.0).seq.load(Ordering::SeqCst),
                (*self.0).active.load(Ordering::SeqCst) == 1,
                (&(*self.0).choices)[..n].to_vec(),
                String::from_utf8_lossy(&(&(*self.0).key)[..k]).into_owned(),
            )
        }
    }
}

pub struct Slots {
    base: *mut u8,
    pub n: usize,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}

impl Slots {
    pub fn open(path: &str, n: usize, create: bool) -> std::io::Result<Slots> {
        let f = OpenOptions::new().read(true).write(true).create(create).truncate(false).open(path)?;
        f.set_len((n * SLOT) as u64)?;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                n * SLOT,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if p == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Slots { base: p as *mut u8, n })
    }
    pub fn slot(&self, i: usize) -> SlotRef {
        assert!(i < self.n);
        SlotRef(unsafe { self.base.add(i * SLOT) } as *mut Raw)
    }
}
