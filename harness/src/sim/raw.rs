//! Raw system calls: used by the simulator itself and for pass-through, so that
//! nothing here ever re-enters an interposed symbol.
use std::arch::asm;

#[inline(always)]
pub unsafe fn syscall6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    unsafe {
        asm!("syscall", inlateout("rax") n as isize => ret,
            in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
            lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    ret
}

pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
pub fn get_errno() -> i32 {
    unsafe { *libc::__errno_location() }
}

/// libc-style return of a raw syscall
#[inline]
pub unsafe fn sys(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r = unsafe { syscall6(n, a, b, c, d, e, f) };
    if (-4095..0).contains(&r) {
        set_errno((-r) as i32);
        -1
    } else {
        r
    }
}

pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { syscall6(libc::SYS_write, fd as usize, b.as_ptr() as usize, b.len(), 0, 0, 0) };
        if r == -(libc::EINTR as isize) { continue; }
        if r <= 0 { return; }
        b = &b[r as usize..];
    }
}
pub fn read_some(fd: i32, b: &mut [u8]) -> isize {
    loop {
        let r = unsafe { syscall6(libc::SYS_read, fd as usize, b.as_mut_ptr() as usize, b.len(), 0, 0, 0) };
        if r == -(libc::EINTR as isize) { continue; }
        return r;
    }
}
pub fn exit_now(code: i32) -> ! {
    unsafe {
        syscall6(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}
pub fn futex_wait(addr: *const u32, val: u32) {
    unsafe {
        syscall6(libc::SYS_futex, addr as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, val as usize, 0, 0, 0);
    }
}
pub fn futex_wake(addr: *const u32, n: usize) {
    unsafe {
        syscall6(libc::SYS_futex, addr as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, n, 0, 0, 0);
    }
}
pub fn real_now_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        syscall6(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as usize, &mut ts as *mut _ as usize, 0, 0, 0, 0);
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
