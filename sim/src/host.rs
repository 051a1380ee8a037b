//! The host a node runs on: another one (C24), or one that is watched for what calls do to it (C23).
//! System calls that a call makes are caught by a seccomp filter and answered here; none of them is carried out.
use crate::rt::{self, raw, PASS};

/// 0 = nothing special, 1 = watched, 2 = another machine
static mut MODE: u8 = 0;
static mut TEXT: [u8; 64] = [0; 64];
static mut NTEXT: usize = 0;
static mut SEED: u64 = 0;
/// what the calls did: number and beginning of the path
static mut DID: [(i32, [u8; 40]); 16] = [(0, [0; 40]); 16];
static mut NDID: usize = 0;
/// panics that reached the program's hook
pub static mut HOOKED: u64 = 0;
/// the last panic was one of the simulator's own callbacks or of its reading of a plan
pub static mut ADAPTOR: bool = false;

macro_rules! calls {
    ($($n:ident)*) => { &[$((libc::$n as i32, stringify!($n))),*] };
}
const DEEDS: &[(i32, &str)] = calls!(SYS_open SYS_openat SYS_openat2 SYS_creat SYS_mkdir SYS_mkdirat SYS_mknod SYS_mknodat SYS_rmdir
    SYS_unlink SYS_unlinkat SYS_rename SYS_renameat SYS_renameat2 SYS_link SYS_linkat SYS_symlink SYS_symlinkat SYS_chmod SYS_fchmod
    SYS_fchmodat SYS_chown SYS_fchown SYS_lchown SYS_fchownat SYS_truncate SYS_ftruncate SYS_utimensat SYS_utime SYS_utimes SYS_setxattr
    SYS_socket SYS_socketpair SYS_connect SYS_bind SYS_listen SYS_sendto SYS_sendmsg SYS_sendmmsg SYS_execve SYS_execveat SYS_fork
    SYS_vfork SYS_kill SYS_tkill SYS_tgkill SYS_chdir SYS_fchdir SYS_chroot SYS_umask SYS_setrlimit SYS_setpriority
    SYS_sched_setaffinity SYS_setitimer SYS_timer_create SYS_alarm SYS_mount SYS_umount2 SYS_ptrace SYS_shmget SYS_msgget
    SYS_semget SYS_mq_open SYS_personality SYS_setuid SYS_setgid SYS_setresuid SYS_setresgid SYS_flock SYS_fallocate
    SYS_write SYS_writev SYS_pwrite64 SYS_sendfile SYS_ioctl SYS_inotify_init1 SYS_fanotify_init SYS_bpf SYS_reboot SYS_sethostname SYS_sync);
const LOOKS: &[(i32, &str)] = calls!(SYS_stat SYS_lstat SYS_newfstatat SYS_statx SYS_access SYS_faccessat SYS_faccessat2 SYS_uname
    SYS_getuid SYS_geteuid SYS_getgid SYS_getegid SYS_getppid SYS_sched_getaffinity SYS_sysinfo SYS_readlink SYS_readlinkat SYS_getcwd
    SYS_getcpu SYS_times SYS_getrusage);
/// asked for by the C library itself when a thread starts
const THREAD: i32 = libc::SYS_sched_getaffinity as i32;

/// A call was told something about the host (not by a system call).
pub unsafe fn told(what: &std::ffi::CStr) {
    if MODE == 1 && rt::in_call() {
        note(-1, what.as_ptr() as *const u8);
    }
}

unsafe fn note(n: i32, path: *const u8) {
    if NDID < DID.len() {
        let d = &mut *(&raw mut DID[NDID]);
        d.0 = n;
        d.1 = [0; 40];
        if !path.is_null() {
            for i in 0..39 {
                let b = *path.add(i);
                if b == 0 {
                    break;
                }
                d.1[i] = b;
            }
        }
        NDID += 1;
    }
}

unsafe extern "C" fn trapped(_: i32, _: *mut libc::siginfo_t, cx: *mut libc::c_void) {
    let g = &mut (*(cx as *mut libc::ucontext_t)).uc_mcontext.gregs;
    let r = |i: i32| g[i as usize];
    let n = r(libc::REG_RAX);
    let a = [r(libc::REG_RDI), r(libc::REG_RSI), r(libc::REG_RDX), r(libc::REG_R10), r(libc::REG_R8)];
    let res = if !rt::in_call() {
        raw(n, a[0], a[1], a[2], a[3], a[4], PASS)
    } else if MODE == 2 {
        elsewhere(n, a)
    } else {
        let path = match n {
            libc::SYS_open | libc::SYS_creat | libc::SYS_mkdir | libc::SYS_rmdir | libc::SYS_unlink | libc::SYS_rename | libc::SYS_chdir | libc::SYS_execve | libc::SYS_chmod | libc::SYS_truncate | libc::SYS_stat | libc::SYS_lstat | libc::SYS_access | libc::SYS_readlink => a[0],
            libc::SYS_openat | libc::SYS_openat2 | libc::SYS_mkdirat | libc::SYS_unlinkat | libc::SYS_renameat2 | libc::SYS_symlinkat | libc::SYS_newfstatat | libc::SYS_statx | libc::SYS_faccessat | libc::SYS_faccessat2 | libc::SYS_readlinkat => a[1],
            _ => 0,
        };
        note(n as i32, path as *const u8);
        match n {
            libc::SYS_write => a[2],
            libc::SYS_umask => 0o22,
            _ => -(libc::EACCES as i64),
        }
    };
    g[libc::REG_RAX as usize] = res;
}

/// How another machine answers.
unsafe fn elsewhere(n: i64, a: [i64; 5]) -> i64 {
    match n {
        libc::SYS_open | libc::SYS_openat => {
            // every file exists
            let fd = raw(libc::SYS_memfd_create, c"file".as_ptr() as i64, 0, 0, 0, 0, 0);
            if fd >= 0 {
                raw(libc::SYS_write, fd, &raw const TEXT as i64, NTEXT as i64, 0, 0, PASS);
                raw(libc::SYS_lseek, fd, 0, 0, 0, 0, 0);
            }
            fd
        }
        libc::SYS_stat | libc::SYS_lstat | libc::SYS_newfstatat => {
            let p = if n == libc::SYS_newfstatat { a[2] } else { a[1] } as *mut libc::stat;
            *p = std::mem::zeroed();
            (*p).st_mode = libc::S_IFREG | 0o644;
            (*p).st_size = NTEXT as i64;
            (*p).st_mtime = (SEED >> 33) as i64;
            0
        }
        libc::SYS_statx => {
            let p = a[4] as *mut libc::statx;
            *p = std::mem::zeroed();
            (*p).stx_mask = libc::STATX_BASIC_STATS;
            (*p).stx_mode = (libc::S_IFREG | 0o644) as u16;
            (*p).stx_size = NTEXT as u64;
            0
        }
        libc::SYS_access | libc::SYS_faccessat | libc::SYS_faccessat2 => 0,
        libc::SYS_uname => {
            let p = a[0] as *mut libc::utsname;
            *p = std::mem::zeroed();
            for (i, b) in TEXT[..NTEXT].iter().enumerate() {
                (*p).nodename[i] = *b as i8;
                (*p).release[i] = *b as i8;
            }
            0
        }
        libc::SYS_getuid | libc::SYS_geteuid | libc::SYS_getgid | libc::SYS_getegid => 1000 + (SEED >> 50) as i64,
        libc::SYS_getppid | libc::SYS_getcpu => (SEED >> 55) as i64,
        libc::SYS_sched_getaffinity => {
            let len = (a[1] as usize).min(128) & !7;
            std::ptr::write_bytes(a[2] as *mut u8, 0, len);
            let cpus = 1usize << (SEED % 7);
            for i in 0..cpus.min(len * 8) {
                *((a[2] as *mut u8).add(i / 8)) |= 1 << (i % 8);
            }
            len.min(16) as i64
        }
        libc::SYS_readlink | libc::SYS_readlinkat | libc::SYS_getcwd => {
            let (p, len) = match n {
                libc::SYS_readlink => (a[1], a[2]),
                libc::SYS_readlinkat => (a[2], a[3]),
                _ => (a[0], a[1]),
            };
            let t: &[u8] = if SEED & 1 == 1 { b"/elsewhere\0" } else { b"/\0" };
            let k = t.len().min(len as usize);
            std::ptr::copy_nonoverlapping(t.as_ptr(), p as *mut u8, k);
            if n == libc::SYS_getcwd { k as i64 } else { k as i64 - 1 }
        }
        libc::SYS_sysinfo | libc::SYS_getrusage => {
            let p = if n == libc::SYS_sysinfo { a[0] } else { a[1] };
            std::ptr::write_bytes(p as *mut u8, (SEED >> 40) as u8 & 0x3f, 96);
            0
        }
        libc::SYS_times => (SEED >> 44) as i64,
        libc::SYS_write | libc::SYS_writev => raw(n, a[0], a[1], a[2], a[3], a[4], PASS),
        libc::SYS_umask => 0o22,
        _ => -(libc::EACCES as i64),
    }
}

/// Environment variables of another machine: it has all of them.
#[no_mangle]
pub unsafe extern "C" fn getenv(k: *const libc::c_char) -> *mut libc::c_char {
    extern "C" {
        static environ: *const *mut libc::c_char;
    }
    let name = std::ffi::CStr::from_ptr(k).to_bytes();
    // what the standard library itself obeys is left alone
    if !name.starts_with(b"RUST") {
        told(std::ffi::CStr::from_ptr(k));
    }
    if MODE == 2 && rt::in_call() && !name.starts_with(b"RUST") {
        return &raw mut TEXT as *mut libc::c_char;
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let s = std::ffi::CStr::from_ptr(*e).to_bytes();
        if s.len() > name.len() && s.starts_with(name) && s[name.len()] == b'=' {
            return (*e).add(name.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn secure_getenv(k: *const libc::c_char) -> *mut libc::c_char {
    getenv(k)
}

unsafe fn install(list: &[(i32, &str)]) -> bool {
    let mut h: libc::sigaction = std::mem::zeroed();
    h.sa_sigaction = trapped as *const () as usize;
    h.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
    libc::sigaction(libc::SIGSYS, &h, std::ptr::null_mut());
    let s = |code: u32, k: u32, jt: u8, jf: u8| libc::sock_filter { code: code as u16, jt, jf, k };
    const LD: u32 = 0x20;
    const JEQ: u32 = 0x15;
    const JSET: u32 = 0x45;
    const RET: u32 = 0x06;
    let l = list.len();
    // 0: the number; then clone3, clone, the list; allow; check; clone; allow; trap; no such call
    let (check, clone, ok) = (4 + l, 6 + l, 8 + l);
    let to = |from: usize, at: usize| (at - from - 1) as u8;
    let mut f = vec![s(LD, 0, 0, 0)];
    // without clone3, threads are made by clone, whose arguments can be seen
    f.push(s(JEQ, libc::SYS_clone3 as u32, to(1, ok + 2), 0));
    f.push(s(JEQ, libc::SYS_clone as u32, to(2, clone), 0));
    for (i, (n, _)) in list.iter().enumerate() {
        f.push(s(JEQ, *n as u32, to(3 + i, check), 0));
    }
    f.push(s(RET, libc::SECCOMP_RET_ALLOW, 0, 0));
    // the simulator's own calls say so in an argument that none of these has
    f.push(s(LD, 56, 0, 0));
    f.push(s(JEQ, PASS as u32, to(check + 1, ok), to(check + 1, ok + 1)));
    f.push(s(LD, 16, 0, 0));
    // a thread is not a process
    f.push(s(JSET, libc::CLONE_THREAD as u32, to(clone + 1, ok), to(clone + 1, ok + 1)));
    f.push(s(RET, libc::SECCOMP_RET_ALLOW, 0, 0));
    f.push(s(RET, libc::SECCOMP_RET_TRAP, 0, 0));
    f.push(s(RET, libc::SECCOMP_RET_ERRNO | libc::ENOSYS as u32, 0, 0));
    let p = libc::sock_fprog { len: f.len() as u16, filter: f.as_mut_ptr() };
    libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && libc::prctl(libc::PR_SET_SECCOMP, libc::SECCOMP_MODE_FILTER, &p as *const libc::sock_fprog) == 0
}

/// Makes this node a watched one.
pub fn watch() -> bool {
    unsafe {
        MODE = 1;
        let mut v = DEEDS.to_vec();
        v.extend(LOOKS.iter().filter(|x| x.0 != THREAD));
        let ok = install(&v);
        BEFORE = Some(surroundings());
        ok
    }
}

const TEXTS: [&str; 24] = [
    "1", "0", "true", "false", "", "zh-cn", "en", "debug", "/tmp", "C", "on", "off", "2", "yes", "none", "strict", "error", "english", "de_DE.UTF-8", "testnet", "trace", "4096", "m/0", "zh_CN.GB18030",
];
/// Makes this node run on another machine.
pub fn move_to(seed: u64) -> bool {
    unsafe {
        MODE = 2;
        SEED = crate::rt::mix(seed);
        let t = TEXTS[((SEED >> 8) % TEXTS.len() as u64) as usize];
        NTEXT = t.len();
        TEXT = [0; 64];
        TEXT[..NTEXT].copy_from_slice(t.as_bytes());
        rt::relocate((SEED >> 20) as usize & 0xffff, (SEED >> 12) as u8);
        rt::SIM_PID = (SEED >> 36) as u32 & 0x3fffff | 2;
        rt::fault(rt::F_MACHINE);
        outfit();
        let mut v = DEEDS.to_vec();
        v.extend_from_slice(LOOKS);
        install(&v)
    }
}

static mut ARGS: (usize, *mut *mut libc::c_char) = (0, std::ptr::null_mut());
extern "C" fn started(n: i32, args: *mut *mut libc::c_char, _: *mut *mut libc::c_char) {
    unsafe { ARGS = (n as usize, args) };
}
#[used]
#[link_section = ".init_array"]
static STARTED: extern "C" fn(i32, *mut *mut libc::c_char, *mut *mut libc::c_char) = started;

/// Another command line and other environment variables.
unsafe fn outfit() {
    extern "C" {
        static mut environ: *mut *mut libc::c_char;
    }
    const NAMES: [&str; 14] = ["LANG", "LC_ALL", "LC_CTYPE", "LANGUAGE", "HOME", "USER", "TZ", "PATH", "TMPDIR", "HOSTNAME", "DEBUG", "CI", "KMS_DEBUG", "NO_COLOR"];
    let t = std::str::from_utf8_unchecked(std::slice::from_raw_parts(&raw const TEXT as *const u8, NTEXT));
    let mut e: Vec<*mut libc::c_char> = NAMES.iter().map(|n| std::ffi::CString::new(format!("{}={}", n, t)).unwrap().into_raw()).collect();
    e.push(std::ptr::null_mut());
    environ = e.leak().as_mut_ptr();
    for i in 0..ARGS.0 {
        *ARGS.1.add(i) = &raw mut TEXT as *mut libc::c_char;
    }
}

/// Makes a call from further down the stack.
#[inline(never)]
pub fn lower<T>(f: impl FnOnce() -> T) -> T {
    #[inline(never)]
    fn down<T>(n: usize, f: impl FnOnce() -> T) -> T {
        let mut a = [0u8; 16];
        std::hint::black_box(&mut a);
        if n == 0 {
            return f();
        }
        fn boxed<'a, T>(n: usize, f: Box<dyn FnOnce() -> T + 'a>) -> T {
            let mut a = [0u8; 48];
            std::hint::black_box(&mut a);
            let r = if n == 0 { f() } else { boxed(n - 1, f) };
            std::hint::black_box(&mut a);
            r
        }
        boxed(n, Box::new(f))
    }
    down(if unsafe { MODE == 2 } { unsafe { (SEED >> 28) as usize & 0xff } } else { 0 }, f)
}

/// Leaves something on the stack and in errno before a call.
#[inline(never)]
pub fn dirty() {
    unsafe {
        if MODE == 2 {
            let mut a = [0u8; 65536];
            for (i, b) in a.iter_mut().enumerate() {
                *b = (SEED >> (i & 31)) as u8;
            }
            std::hint::black_box(&mut a);
            *libc::__errno_location() = (SEED >> 57) as i32;
        }
    }
}

// ---------------------------------------------------------------------------------- what a program has around it
static mut BEFORE: Option<Vec<(String, String)>> = None;

unsafe fn surroundings() -> Vec<(String, String)> {
    extern "C" {
        static environ: *const *mut libc::c_char;
    }
    let mut v: Vec<(String, String)> = vec![];
    let mut put = |k: String, x: String| v.push((k, x));
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        put("environment variables".into(), String::from_utf8_lossy(std::ffi::CStr::from_ptr(*e).to_bytes()).into_owned());
        e = e.add(1);
    }
    let mut b = [0u8; 512];
    raw(libc::SYS_getcwd, b.as_mut_ptr() as i64, 512, 0, 0, 0, 0);
    put("working directory".into(), format!("{:?}", String::from_utf8_lossy(&b).trim_end_matches('\0')));
    let u = raw(libc::SYS_umask, 0o77, 0, 0, 0, 0, PASS);
    raw(libc::SYS_umask, u, 0, 0, 0, 0, PASS);
    put("umask".into(), format!("{:o}", u));
    for s in 1..=31i64 {
        if s != libc::SIGSYS as i64 && s != 9 && s != 19 {
            let mut a = [0u64; 4];
            raw(libc::SYS_rt_sigaction, s, 0, a.as_mut_ptr() as i64, 8, 0, 0);
            put(format!("handler of signal {}", s), format!("{:x?}", a));
        }
    }
    let mut m = [0u64; 2];
    raw(libc::SYS_rt_sigprocmask, 0, 0, m.as_mut_ptr() as i64, 8, 0, 0);
    put("signal mask".into(), format!("{:x}", m[0]));
    let mut n = [0u8; 17];
    raw(libc::SYS_prctl, libc::PR_GET_NAME as i64, n.as_mut_ptr() as i64, 0, 0, 0, 0);
    put("thread name".into(), format!("{:?}", String::from_utf8_lossy(&n)));
    for (t, k) in [("dumpable", libc::PR_GET_DUMPABLE), ("keepcaps", libc::PR_GET_KEEPCAPS), ("timer slack", libc::PR_GET_TIMERSLACK), ("parent death signal", -1)] {
        if k >= 0 {
            put(format!("process attribute {}", t), raw(libc::SYS_prctl, k as i64, 0, 0, 0, 0, 0).to_string());
        }
    }
    for i in 0..16i64 {
        let mut l = [0u64; 2];
        raw(libc::SYS_getrlimit, i, l.as_mut_ptr() as i64, 0, 0, 0, 0);
        put(format!("resource limit {}", i), format!("{:x?}", l));
    }
    for i in 0..3i64 {
        let mut l = [0u64; 4];
        raw(libc::SYS_getitimer, i, l.as_mut_ptr() as i64, 0, 0, 0, 0);
        put(format!("timer {}", i), (l[2] | l[3] != 0).to_string());
    }
    put("scheduling".into(), raw(libc::SYS_sched_getscheduler, 0, 0, 0, 0, 0, 0).to_string());
    put("priority".into(), raw(libc::SYS_getpriority, 0, 0, 0, 0, 0, 0).to_string());
    let mut c = [0u64; 16];
    raw(libc::SYS_sched_getaffinity, 0, 128, c.as_mut_ptr() as i64, 0, 0, 0);
    put("processors".into(), format!("{:x?}", c));
    let mut x = 0u32;
    std::arch::asm!("stmxcsr [{}]", in(reg) &mut x, options(nostack));
    // the flags of past operations do not matter
    put("floating-point mode".into(), format!("{:x}", x & !0x3f));
    let mut y = 0u16;
    std::arch::asm!("fnstcw [{}]", in(reg) &mut y, options(nostack));
    put("floating-point control".into(), format!("{:x}", y));
    let l = libc::setlocale(libc::LC_ALL, std::ptr::null());
    put("locale".into(), if l.is_null() { String::new() } else { String::from_utf8_lossy(std::ffi::CStr::from_ptr(l).to_bytes()).into_owned() });
    for f in 0..256i64 {
        // the entropy device may stay open
        if !rt::is_device(f as i32) && raw(libc::SYS_fcntl, f, libc::F_GETFD as i64, 0, 0, 0, 0) >= 0 {
            put("open files".into(), format!("{} {:x}", f, raw(libc::SYS_fcntl, f, libc::F_GETFL as i64, 0, 0, 0, 0)));
        }
    }
    let mut si: libc::siginfo_t = std::mem::zeroed();
    put("child processes".into(), (raw(libc::SYS_waitid, libc::P_ALL as i64, 0, &mut si as *mut libc::siginfo_t as i64, (libc::WNOHANG | libc::WNOWAIT | libc::WEXITED) as i64, 0, 0) >= 0).to_string());
    let h = HOOKED;
    let _ = std::panic::catch_unwind(|| panic!("test"));
    put("panic hook".into(), if HOOKED == h + 1 { "the program's" } else { "another" }.into());
    v
}

/// What the calls since the last look did to their surroundings.
pub fn deeds() -> Vec<String> {
    unsafe {
        let mut v: Vec<String> = vec![];
        for i in 0..NDID {
            let d = DID[i];
            let name = DEEDS.iter().chain(LOOKS).find(|x| x.0 == d.0).map(|x| &x.1[4..]).unwrap_or("clone");
            if d.0 < 0 {
                v.push(format!("asked the host for {}", String::from_utf8_lossy(&d.1).trim_end_matches('\0')));
                continue;
            }
            v.push(format!("system call {} {}", name, String::from_utf8_lossy(&d.1).trim_end_matches('\0')).trim_end().to_string());
        }
        NDID = 0;
        let now = surroundings();
        if let Some(b) = &BEFORE {
            for x in &now {
                if !b.contains(x) {
                    v.push(format!("{} changed to {}", x.0, x.1));
                }
            }
            for x in b {
                if !now.contains(x) && !now.iter().any(|y| y.0 == x.0 && !b.contains(y)) {
                    v.push(format!("{} changed from {}", x.0, x.1));
                }
            }
        }
        BEFORE = Some(now);
        v
    }
}
