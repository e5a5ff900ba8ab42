//! Host stand-in for the parts of ckb-std the on-chain script uses. The script
//! is run once per line of standard input; each line names a directory holding
//! the witnesses w0..w4 (a missing file is a missing witness). One result line
//! per run: "rc <exit code>" or "panic <message>".
#![allow(clippy::all)]
pub mod ckb_constants {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Source {
        Input,
        Output,
        CellDep,
        HeaderDep,
        GroupInput,
        GroupOutput,
    }
}
pub mod error {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum SysError {
        IndexOutOfBound,
        ItemMissing,
        LengthNotEnough(usize),
        Encoding,
        Unknown(u64),
    }
}
pub mod syscalls {
    pub use super::error::SysError;
    use super::ckb_constants::Source;
    pub fn debug(_: String) {}
    /// As the CKB syscall: copies what fits; reports LengthNotEnough(actual) when
    /// the item is longer than the buffer.
    pub fn load_witness(buf: &mut [u8], offset: usize, index: usize, source: Source) -> Result<usize, SysError> {
        if source != Source::Input && source != Source::GroupInput {
            return Err(SysError::IndexOutOfBound);
        }
        let dir = super::DIR.with(|d| d.borrow().clone());
        let data = std::fs::read(format!("{}/w{}", dir, index)).map_err(|_| SysError::IndexOutOfBound)?;
        let data = data.get(offset..).unwrap_or(&[]);
        let n = data.len().min(buf.len());
        buf[..n].copy_from_slice(&data[..n]);
        if data.len() > buf.len() {
            Err(SysError::LengthNotEnough(data.len()))
        } else {
            Ok(data.len())
        }
    }
}
thread_local! {
    pub static DIR: std::cell::RefCell<String> = Default::default();
}
pub fn drive(entry: fn() -> i8) -> i32 {
    use std::io::{BufRead, Write};
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        DIR.with(|d| *d.borrow_mut() = line.clone());
        let r = std::panic::catch_unwind(entry);
        match r {
            Ok(rc) => writeln!(out, "rc {}", rc).unwrap(),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                writeln!(out, "panic {}", m.replace('\n', " ")).unwrap()
            }
        }
        out.flush().unwrap();
    }
    0
}
#[macro_export]
macro_rules! entry {
    ($f:path) => {
        extern crate alloc;
        extern crate std;
        #[no_mangle]
        pub extern "C" fn main(_: i32, _: *const *const u8) -> i32 {
            $crate::drive($f)
        }
    };
}
#[macro_export]
macro_rules! default_alloc {
    ($($t:tt)*) => {};
}
