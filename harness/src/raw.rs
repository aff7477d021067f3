//! Raw system calls: the interposed libc entry points use these to reach the kernel.
#![allow(dead_code)]
use std::arch::asm;

#[inline]
pub unsafe fn syscall6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    asm!("syscall",
        inlateout("rax") n as isize => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}
pub unsafe fn sys(n: i64, a: &[usize]) -> isize {
    let g = |i: usize| a.get(i).copied().unwrap_or(0);
    syscall6(n, g(0), g(1), g(2), g(3), g(4), g(5))
}
/// Converts a raw result to the libc convention.
pub fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        set_errno((-r) as i32);
        -1
    } else {
        r
    }
}
pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
pub fn errno() -> i32 {
    unsafe { *libc::__errno_location() }
}
pub fn exit_now(code: i32) -> ! {
    unsafe {
        syscall6(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}
pub fn write_all(fd: i32, mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let n = unsafe { sys(libc::SYS_write, &[fd as usize, b.as_ptr() as usize, b.len()]) };
        if n <= 0 {
            if n == -(libc::EINTR as isize) {
                continue;
            }
            return false;
        }
        b = &b[n as usize..];
    }
    true
}
/// Waits until no lock is left on the values files: the kernel lets go of those of a process that has just died only
/// some time after it can be waited for.
pub fn released(store: &std::path::Path) {
    use std::os::fd::AsRawFd;
    let Ok(dir) = std::fs::read_dir(store) else { return };
    for e in dir.flatten() {
        if e.file_name().to_string_lossy().starts_with("snapshot-") {
            released(&e.path());
        }
        if !e.file_name().to_string_lossy().starts_with("values-") {
            continue;
        }
        let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).open(e.path()) else { continue };
        for _ in 0..5000 {
            let mut l: libc::flock = unsafe { std::mem::zeroed() };
            l.l_type = libc::F_WRLCK as i16;
            let held = unsafe { sys(libc::SYS_fcntl, &[f.as_raw_fd() as usize, libc::F_OFD_GETLK as usize, &mut l as *mut _ as usize]) } == 0 && l.l_type != libc::F_UNLCK as i16;
            let fd = f.as_raw_fd() as usize;
            let free = !held && unsafe { sys(libc::SYS_flock, &[fd, (libc::LOCK_EX | libc::LOCK_NB) as usize]) } == 0;
            if free {
                unsafe { sys(libc::SYS_flock, &[fd, libc::LOCK_UN as usize]) };
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
    }
}
