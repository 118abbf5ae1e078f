//! Reports crashes and cases which do not end.
use crate::{CUR, DONE};
use std::sync::atomic::Ordering::Relaxed;

unsafe fn emit(parts: &[&[u8]]) {
    for p in parts {
        libc::write(1, p.as_ptr() as _, p.len());
    }
}
fn dec(mut n: u64, buf: &mut [u8; 20]) -> &[u8] {
    let mut i = 20;
    loop {
        i -= 1;
        buf[i] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            return &buf[i..];
        }
    }
}
extern "C" fn handler(sig: libc::c_int) {
    unsafe {
        let (mut a, mut b) = ([0; 20], [0; 20]);
        emit(&[b"\nCRASH signal=", dec(sig as u64, &mut a), b" seed=", dec(CUR.load(Relaxed), &mut b), b"\n"]);
        libc::_exit(4);
    }
}
pub fn install(signals: bool) {
    unsafe {
        if signals {
            let st = libc::mmap(std::ptr::null_mut(), 1 << 16, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            let ss = libc::stack_t { ss_sp: st, ss_flags: 0, ss_size: 1 << 16 };
            libc::sigaltstack(&ss, std::ptr::null_mut());
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT, libc::SIGTRAP] {
                let mut sa: libc::sigaction = std::mem::zeroed();
                sa.sa_sigaction = handler as usize;
                sa.sa_flags = libc::SA_ONSTACK;
                libc::sigaction(s, &sa, std::ptr::null_mut());
            }
        }
        // A case which burns an absurd amount of CPU time hangs: no operation may wait.
        let mut clock: libc::clockid_t = 0;
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock);
        let now = move || {
            let mut t: libc::timespec = std::mem::zeroed();
            libc::clock_gettime(clock, &mut t);
            t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
        };
        let limit = std::env::var("SEQ_HANG_MS").ok().and_then(|v| v.parse().ok()).unwrap_or(15_000u64);
        // Nor does the only thread ever sleep: if it does, it waits for a lock which it holds itself.
        let state = format!("/proc/self/task/{}/stat\0", libc::syscall(libc::SYS_gettid));
        let asleep = move || {
            let mut b = [0u8; 256];
            let fd = libc::open(state.as_ptr() as _, libc::O_RDONLY);
            let n = libc::read(fd, b.as_mut_ptr() as _, 256).max(0) as usize;
            libc::close(fd);
            b[..n].windows(3).any(|w| w == b") S")
        };
        let asleep: Box<dyn Fn() -> bool + Send> = Box::new(asleep);
        let clock_now: Box<dyn Fn() -> u64 + Send> = Box::new(now);
        std::thread::spawn(move || {
            let (mut done, mut since, mut last, mut naps) = (u64::MAX, 0, 0, 0);
            loop {
                std::thread::sleep(std::time::Duration::from_millis(200));
                let (d, t) = (DONE.load(Relaxed), clock_now());
                naps = if d == done && t == last && asleep() { naps + 1 } else { 0 };
                last = t;
                if d != done {
                    (done, since) = (d, t);
                } else if t - since > limit || naps > limit / 200 {
                    let mut b = [0; 20];
                    emit(&[b"\nHANG seed=", dec(CUR.load(Relaxed), &mut b), b"\n"]);
                    libc::_exit(5);
                }
            }
        });
    }
}
