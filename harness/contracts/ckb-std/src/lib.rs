//! Stand-in for `ckb-std`: the system calls a contract script makes answer from a transaction the
//! explorer sets up. Nothing else of the real crate is imitated.
use std::cell::RefCell;
thread_local!(static TX: RefCell<Tx> = RefCell::new(Tx::default()));

/// what every cell of the transaction answers; a cell that is not listed does not exist
#[derive(Default, Clone)]
pub struct Tx {
    pub cells: Vec<((usize, ckb_constants::Source), Result<Vec<u8>, error::SysError>)>,
}
/// run `f` inside the transaction
pub fn within<T>(tx: Tx, f: impl FnOnce() -> T) -> T {
    TX.with(|t| *t.borrow_mut() = tx);
    f()
}
pub mod error {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum SysError {
        IndexOutOfBound,
        ItemMissing,
        LengthNotEnough(usize),
        Encoding,
        Unknown(u64),
    }
}
pub mod ckb_constants {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    #[repr(u64)]
    pub enum Source {
        Input = 1,
        Output = 2,
        CellDep = 3,
        HeaderDep = 4,
        GroupInput = 0x0100000000000001,
        GroupOutput = 0x0100000000000002,
    }
}
pub mod high_level {
    use super::{ckb_constants::Source, error::SysError};
    pub fn load_cell_data(index: usize, source: Source) -> Result<Vec<u8>, SysError> {
        super::TX.with(|t| {
            let t = t.borrow();
            match t.cells.iter().find(|c| c.0 == (index, source)) {
                Some((_, r)) => r.clone(),
                None => Err(SysError::IndexOutOfBound),
            }
        })
    }
}
#[macro_export]
macro_rules! debug {
    ($($arg:tt)*) => {
        let _ = ::core::format_args!($($arg)*);
    };
}
/// the script's exit code
#[macro_export]
macro_rules! entry {
    ($main:path) => {
        pub fn script() -> i8 {
            $main()
        }
    };
}
#[macro_export]
macro_rules! default_alloc {
    () => {
        extern crate alloc;
    };
}
