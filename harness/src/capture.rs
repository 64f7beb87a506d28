//! Captures what the process writes to standard output (file descriptor 1). One at a time, from sequential groups only.
use std::io::Write;

pub struct Capture {
    mem: i32,
    saved: i32,
}
impl Capture {
    pub fn start() -> Capture {
        unsafe {
            let _ = std::io::stdout().flush();
            let mem = libc::memfd_create(c"vh-stdout".as_ptr(), libc::MFD_CLOEXEC);
            let saved = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 210);
            assert!(mem >= 0 && saved >= 0);
            assert!(libc::dup2(mem, 1) == 1);
            Capture { mem, saved }
        }
    }
    /// Everything since the start or the previous call
    pub fn take(&self) -> Vec<u8> {
        let _ = std::io::stdout().flush();
        unsafe {
            let n = libc::lseek(self.mem, 0, libc::SEEK_END).max(0) as usize;
            let mut v = vec![0u8; n];
            let r = libc::pread(self.mem, v.as_mut_ptr().cast(), n, 0);
            assert!(r as usize == n);
            assert!(libc::ftruncate(self.mem, 0) == 0);
            libc::lseek(self.mem, 0, libc::SEEK_SET);
            v
        }
    }
}
impl Drop for Capture {
    fn drop(&mut self) {
        let _ = std::io::stdout().flush();
        unsafe {
            libc::dup2(self.saved, 1);
            libc::close(self.saved);
            libc::close(self.mem);
        }
    }
}
