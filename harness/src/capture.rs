//! Capture what the code under test prints on standard output.
use std::io::{Read, Seek, Write};
use std::os::fd::{AsRawFd, FromRawFd};

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn memfd_create(name: *const i8, flags: u32) -> i32;
}

pub fn stdout_of<T>(f: impl FnOnce() -> T) -> (T, String) {
    unsafe {
        let _ = std::io::stdout().flush();
        let saved = dup(1);
        let fd = memfd_create(b"cap\0".as_ptr() as *const i8, 0);
        assert!(fd >= 0 && saved >= 0);
        let mut file = std::fs::File::from_raw_fd(fd);
        dup2(file.as_raw_fd(), 1);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let _ = std::io::stdout().flush();
        dup2(saved, 1);
        drop(std::fs::File::from_raw_fd(saved));
        let mut s = String::new();
        file.rewind().unwrap();
        file.read_to_string(&mut s).unwrap();
        match r {
            Ok(x) => (x, s),
            Err(e) => std::panic::resume_unwind(e),
        }
    }
}
