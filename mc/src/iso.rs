//! Runs a closure in a child process: what it leaves behind in memory is gone.
use std::io::{Read, Write};
use std::os::fd::FromRawFd;

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn alarm(seconds: u32) -> u32;
    fn _exit(code: i32) -> !;
}

/// The text `f` gives in a child of its own; Err if the child ended otherwise.
pub fn isolated(f: impl Fn() -> String) -> Result<String, String> {
    // a child that hangs is given more time on a crowded machine
    for patience in [10, 60] {
        let mut fds = [0; 2];
        if unsafe { pipe(fds.as_mut_ptr()) } != 0 { panic!("harness: no pipe") }
        let (mut rd, mut wr) = unsafe { (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1])) };
        let pid = unsafe { fork() };
        if pid < 0 { panic!("harness: no child process") }
        if pid == 0 {
            unsafe { alarm(patience) };
            let t = std::panic::catch_unwind(std::panic::AssertUnwindSafe(&f)).unwrap_or_else(|_| "panic".into());
            let ok = wr.write_all(t.as_bytes()).is_ok();
            unsafe { _exit(if ok { 0 } else { 3 }) }
        }
        drop(wr);
        let mut t = String::new();
        let read = rd.read_to_string(&mut t);
        let mut st = 0;
        while unsafe { waitpid(pid, &mut st, 0) } < 0 {}
        if st == 0 { return read.map(|_| t).map_err(|e| e.to_string()) }
        if st & 0x7f != 14 { return Err(format!("the process ends with signal {} or code {}", st & 0x7f, st >> 8)) }
    }
    Err("the process hangs".into())
}
