// File operations of the code under test under the control of the explorer (include! into a binary).
//
// The functions below take the place of the C library's in this executable (the standard library
// calls them by name).  They pass everything through, except in a thread that has called
// `shim::begin`: there every operation on a file below the scratch directory is logged, can be made
// to fail or to be cut short, directory entries come in a chosen order, and a gate can hold the
// operation until a scheduler lets it pass.
#[allow(invalid_runtime_symbol_definitions)]
mod shim {
    use std::cell::{Cell, RefCell};
    use std::ffi::CStr;
    use std::sync::{Arc, Condvar, Mutex};

    extern "C" {
        fn syscall(n: i64, ...) -> i64;
        fn __errno_location() -> *mut i32;
        fn dlsym(h: *mut u8, name: *const i8) -> *mut u8;
    }
    const RTLD_NEXT: *mut u8 = -1isize as *mut u8;
    const EINTR: i32 = 4;
    const EIO: i32 = 5;
    const EACCES: i32 = 13;
    const EEXIST: i32 = 17;
    const EMFILE: i32 = 24;
    const ENOSPC: i32 = 28;

    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum Fault {
        Io,
        NoSpace,
        Access,
        Exists,
        TooMany,
        Interrupted,
        /// only one byte is transferred
        One,
        /// only half of the bytes are transferred
        Half,
        /// a write accepts nothing
        Zero,
    }
    impl Fault {
        /// The operation can be continued: nothing may be lost by it.
        pub fn transparent(&self) -> bool {
            matches!(self, Fault::Interrupted | Fault::One | Fault::Half)
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Kind {
        Mkdir,
        OpenRead,
        OpenWrite,
        Read,
        Write,
        OpenDir,
        ReadDir,
        /// rename, unlink, truncate and the like
        Destroy,
    }
    impl Kind {
        pub fn faults(&self) -> &'static [Fault] {
            match self {
                Kind::Mkdir => &[Fault::Io, Fault::NoSpace, Fault::Access, Fault::Exists],
                Kind::OpenRead => &[Fault::Io, Fault::Access, Fault::TooMany, Fault::Interrupted],
                Kind::OpenWrite => &[Fault::Io, Fault::NoSpace, Fault::Access, Fault::TooMany, Fault::Interrupted],
                Kind::Read => &[Fault::Io, Fault::Interrupted, Fault::One, Fault::Half],
                Kind::Write => &[Fault::Io, Fault::NoSpace, Fault::Interrupted, Fault::One, Fault::Half, Fault::Zero],
                Kind::OpenDir | Kind::ReadDir => &[Fault::Io, Fault::TooMany],
                Kind::Destroy => &[],
            }
        }
    }

    #[derive(Clone, Debug, PartialEq)]
    pub struct Op {
        pub kind: Kind,
        pub path: String,
        pub fault: Option<Fault>,
    }

    /// Lets one thread at a time pass to its next gate.
    pub struct Gate {
        pub state: Mutex<GateState>,
        pub cond: Condvar,
    }
    #[derive(Default)]
    pub struct GateState {
        /// waiting at a gate
        pub waiting: Vec<bool>,
        pub done: Vec<bool>,
        pub go: Option<usize>,
    }
    impl Gate {
        pub fn new(n: usize) -> Arc<Gate> {
            Arc::new(Gate { state: Mutex::new(GateState { waiting: vec![false; n], done: vec![false; n], go: None }), cond: Condvar::new() })
        }
        fn wait(&self, me: usize) {
            let mut s = self.state.lock().unwrap();
            s.waiting[me] = true;
            self.cond.notify_all();
            while s.go != Some(me) {
                s = self.cond.wait(s).unwrap();
            }
            s.go = None;
            s.waiting[me] = false;
        }
        pub fn finished(&self, me: usize) {
            let mut s = self.state.lock().unwrap();
            s.done[me] = true;
            self.cond.notify_all();
        }
        /// Waits until every thread is at a gate or has finished; returns the waiting ones.
        pub fn settled(&self) -> Vec<usize> {
            let mut s = self.state.lock().unwrap();
            while s.go.is_some() || (0..s.waiting.len()).any(|i| !s.waiting[i] && !s.done[i]) {
                s = self.cond.wait(s).unwrap();
            }
            (0..s.waiting.len()).filter(|i| s.waiting[*i]).collect()
        }
        pub fn release(&self, i: usize) {
            let mut s = self.state.lock().unwrap();
            s.go = Some(i);
            self.cond.notify_all();
        }
    }

    #[derive(Default)]
    pub struct Ctl {
        root: String,
        ops: Vec<Op>,
        /// fault at the n-th operation
        at: Option<(usize, Fault)>,
        /// every operation from this one on fails: the program stops here
        dead: Option<usize>,
        /// order of the directory entries (indices into the sorted list, taken one after the other)
        order: Vec<usize>,
        fds: Vec<(i32, String)>,
        entries: Vec<Box<[u8]>>,
        next: usize,
        gate: Option<(Arc<Gate>, usize, Vec<Kind>)>,
    }

    thread_local! {
        static ACTIVE: Cell<bool> = const { Cell::new(false) };
        static CTL: RefCell<Ctl> = RefCell::new(Ctl::default());
        /// what getrandom returns in this thread (keys of hash maps)
        static KEY: Cell<Option<u8>> = const { Cell::new(None) };
    }

    #[derive(Clone, Default)]
    pub struct Plan {
        pub at: Option<(usize, Fault)>,
        pub dead: Option<usize>,
        pub order: Vec<usize>,
        pub key: u8,
        pub gate: Option<(Arc<Gate>, usize, Vec<Kind>)>,
    }

    /// Runs `f` in a new thread under the plan; returns its result (or panic) and the operations.
    pub fn under<R: Send + 'static>(root: &str, plan: Plan, f: impl FnOnce() -> R + Send + 'static) -> (Result<R, String>, Vec<Op>) {
        start(root, plan, f).join().expect("HARNESS: thread of the code under test")
    }

    pub fn start<R: Send + 'static>(root: &str, plan: Plan, f: impl FnOnce() -> R + Send + 'static) -> std::thread::JoinHandle<(Result<R, String>, Vec<Op>)> {
        let root = root.to_string();
        std::thread::spawn(move || {
            let gate = plan.gate.clone();
            KEY.with(|k| k.set(Some(plan.key)));
            CTL.with(|c| {
                *c.borrow_mut() = Ctl { root, at: plan.at, dead: plan.dead, order: plan.order, gate: plan.gate, ..Default::default() };
            });
            ACTIVE.with(|a| a.set(true));
            let r = mcheck::catch(f);
            ACTIVE.with(|a| a.set(false));
            KEY.with(|k| k.set(None));
            let ops = CTL.with(|c| std::mem::take(&mut c.borrow_mut().ops));
            if let Some((g, me, _)) = gate {
                g.finished(me);
            }
            (r, ops)
        })
    }

    fn err(code: i32) -> i64 {
        unsafe { *__errno_location() = code };
        -1
    }

    /// Logs an operation; the fault to apply to it.
    fn log(kind: Kind, path: &str) -> Option<Fault> {
        let gate = CTL.with(|c| match &c.borrow().gate {
            Some((g, me, kinds)) if kinds.contains(&kind) => Some((g.clone(), *me)),
            _ => None,
        });
        if let Some((g, me)) = gate {
            ACTIVE.with(|a| a.set(false));
            g.wait(me);
            ACTIVE.with(|a| a.set(true));
        }
        CTL.with(|c| {
            let mut c = c.borrow_mut();
            let n = c.ops.len();
            let mut f = match c.at {
                Some((k, f)) if k == n && kind.faults().contains(&f) => Some(f),
                _ => None,
            };
            if c.dead.map_or(false, |d| n >= d) {
                f = Some(Fault::Io);
            }
            c.ops.push(Op { kind, path: path.to_string(), fault: f });
            f
        })
    }

    fn code(f: Fault) -> i32 {
        match f {
            Fault::Io => EIO,
            Fault::NoSpace => ENOSPC,
            Fault::Access => EACCES,
            Fault::Exists => EEXIST,
            Fault::TooMany => EMFILE,
            Fault::Interrupted => EINTR,
            _ => EIO,
        }
    }

    /// The path, if it is below the root of an active thread.
    unsafe fn ours(p: *const i8) -> Option<String> {
        if !ACTIVE.with(|a| a.get()) {
            return None;
        }
        let s = CStr::from_ptr(p as *const _).to_string_lossy().into_owned();
        CTL.with(|c| if s.starts_with(&c.borrow().root) { Some(s) } else { None })
    }

    fn ours_fd(fd: i32) -> Option<String> {
        if !ACTIVE.with(|a| a.get()) {
            return None;
        }
        CTL.with(|c| c.borrow().fds.iter().find(|x| x.0 == fd).map(|x| x.1.clone()))
    }

    unsafe fn do_open(path: *const i8, flags: i32, mode: u32) -> i32 {
        let ours = ours(path);
        if let Some(p) = &ours {
            // O_WRONLY, O_RDWR, O_CREAT, O_TRUNC
            let kind = if flags & (1 | 2 | 0o100 | 0o1000) != 0 { Kind::OpenWrite } else { Kind::OpenRead };
            if let Some(f) = log(kind, p) {
                return err(code(f)) as i32;
            }
        }
        let fd = syscall(257, -100i64, path, flags as i64, mode as i64) as i32;
        if fd >= 0 {
            if let Some(p) = ours {
                CTL.with(|c| {
                    let mut c = c.borrow_mut();
                    c.fds.retain(|x| x.0 != fd);
                    c.fds.push((fd, p));
                });
            }
        }
        fd
    }
    #[no_mangle]
    pub unsafe extern "C" fn open64(path: *const i8, flags: i32, mode: u32) -> i32 {
        do_open(path, flags, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn open(path: *const i8, flags: i32, mode: u32) -> i32 {
        do_open(path, flags, mode)
    }

    #[no_mangle]
    pub unsafe extern "C" fn mkdir(path: *const i8, mode: u32) -> i32 {
        if let Some(p) = ours(path) {
            if let Some(f) = log(Kind::Mkdir, &p) {
                return err(code(f)) as i32;
            }
        }
        syscall(83, path, mode as i64) as i32
    }

    #[no_mangle]
    pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
        let mut n = n;
        if let Some(p) = ours_fd(fd) {
            match log(Kind::Read, &p) {
                Some(Fault::One) => n = n.min(1),
                Some(Fault::Half) => n = n.min(37),
                Some(f) => return err(code(f)) as isize,
                None => {}
            }
        }
        syscall(0, fd as i64, buf, n) as isize
    }

    #[no_mangle]
    pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
        let mut n = n;
        if let Some(p) = ours_fd(fd) {
            match log(Kind::Write, &p) {
                Some(Fault::One) => n = n.min(1),
                Some(Fault::Half) => n = (n + 1) / 2,
                Some(Fault::Zero) => return 0,
                Some(f) => return err(code(f)) as isize,
                None => {}
            }
        }
        syscall(1, fd as i64, buf, n) as isize
    }

    #[no_mangle]
    pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
        if let Some(k) = KEY.with(|k| k.get()) {
            for i in 0..n {
                *buf.add(i) = k.wrapping_mul(37).wrapping_add((i as u8).wrapping_mul(k | 1));
            }
            return n as isize;
        }
        syscall(318, buf, n, flags as i64) as isize
    }

    #[no_mangle]
    pub unsafe extern "C" fn opendir(path: *const i8) -> *mut u8 {
        let real: unsafe extern "C" fn(*const i8) -> *mut u8 = std::mem::transmute(dlsym(RTLD_NEXT, c"opendir".as_ptr() as *const i8));
        let ours = ours(path);
        if let Some(p) = &ours {
            if let Some(f) = log(Kind::OpenDir, p) {
                err(code(f));
                return std::ptr::null_mut();
            }
        }
        let d = real(path);
        if !d.is_null() && ours.is_some() {
            let mut v: Vec<(Vec<u8>, Box<[u8]>)> = vec![];
            loop {
                let e = real_readdir()(d);
                if e.is_null() {
                    break;
                }
                // struct dirent64: d_ino 8, d_off 8, d_reclen 2, d_type 1, d_name
                let len = *(e.add(16) as *const u16) as usize;
                let bytes: Box<[u8]> = std::slice::from_raw_parts(e, len).to_vec().into_boxed_slice();
                let name = CStr::from_ptr(e.add(19) as *const _).to_bytes().to_vec();
                v.push((name, bytes));
            }
            v.sort();
            CTL.with(|c| {
                let mut c = c.borrow_mut();
                let mut out = vec![];
                let order = c.order.clone();
                let mut k = 0;
                while !v.is_empty() {
                    // . and .. are not part of the chosen order
                    let special = v.iter().position(|e| e.0 == b"." || e.0 == b"..");
                    let i = match special {
                        Some(i) => i,
                        None => {
                            k += 1;
                            order.get(k - 1).copied().unwrap_or(0) % v.len()
                        }
                    };
                    out.push(v.remove(i).1);
                }
                c.entries = out;
                c.next = 0;
            });
        }
        d
    }
    unsafe fn real_readdir() -> unsafe extern "C" fn(*mut u8) -> *const u8 {
        std::mem::transmute(dlsym(RTLD_NEXT, c"readdir64".as_ptr() as *const i8))
    }
    #[no_mangle]
    pub unsafe extern "C" fn readdir64(d: *mut u8) -> *const u8 {
        if !ACTIVE.with(|a| a.get()) {
            return real_readdir()(d);
        }
        if let Some(f) = log(Kind::ReadDir, "") {
            err(code(f));
            return std::ptr::null();
        }
        CTL.with(|c| {
            let mut c = c.borrow_mut();
            let i = c.next;
            if i < c.entries.len() {
                c.next += 1;
                c.entries[i].as_ptr()
            } else {
                *__errno_location() = 0;
                std::ptr::null()
            }
        })
    }

    macro_rules! destroy {
        ($($name:ident($n:expr; $a:ident : $at:ty $(, $b:ident : $bt:ty)*);)*) => {
            $(
                #[no_mangle]
                pub unsafe extern "C" fn $name($a: $at $(, $b: $bt)*) -> i32 {
                    if let Some(p) = ours($a as *const i8) {
                        log(Kind::Destroy, &format!("{} {}", stringify!($name), p));
                    }
                    syscall($n, $a $(, $b as i64)*) as i32
                }
            )*
        };
    }
    destroy! {
        unlink(87; a: *const i8);
        rmdir(84; a: *const i8);
        rename(82; a: *const i8, b: *const i8);
        link(86; a: *const i8, b: *const i8);
        symlink(88; a: *const i8, b: *const i8);
        chmod(90; a: *const i8, b: u32);
        truncate64(76; a: *const i8, b: i64);
    }
}
