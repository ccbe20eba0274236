//! The instruction scheduler: tasks on their own stacks in one thread, run one
//! machine instruction at a time under the trap flag. After every instruction
//! inside the library the plan decides who runs next, so a schedule is exactly
//! repeatable and can suspend or abandon a task between any two instructions.

use crate::node::Node;

const STACK: usize = 512 << 10;
const FPSTATE: usize = 16 << 10;
const TF: i64 = 0x100;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum What {
    /// Let this task run instead.
    SwitchTo(usize),
    /// Never run this task again.
    Abandon,
}

#[derive(Clone, Copy, Debug)]
pub struct Event {
    /// Which operation of the task, and after how many of its instructions.
    pub op: u32,
    pub step: u64,
    pub what: What,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    New,
    Suspended,
    Done,
    Abandoned,
    /// Used more instructions than it may.
    Stuck,
}

pub struct Task {
    body: Box<dyn FnMut(u32)>,
    ops: u32,
    budget: Box<dyn Fn(u32) -> u64>,
    events: Vec<Event>,
    next: usize,
    state: State,
    op: u32,
    finished: bool,
    seen_op: u32,
    steps: u64,
    /// Instructions each operation took.
    pub taken: Vec<u64>,
    /// Instructions at which the library's own writable memory was touched.
    pub touched: Vec<u64>,
    /// Stop stepping (and run free) once an operation exceeds its budget.
    free_run: bool,
    pub over: bool,
    stack: *mut u8,
    gregs: [i64; 23],
    fp: *mut u8,
}

impl Task {
    pub fn new(ops: u32, body: Box<dyn FnMut(u32)>, budget: Box<dyn Fn(u32) -> u64>, mut events: Vec<Event>) -> Task {
        events.sort_by_key(|e| (e.op, e.step));
        Task {
            body,
            ops,
            budget,
            events,
            next: 0,
            state: State::New,
            op: 0,
            finished: false,
            seen_op: u32::MAX,
            steps: 0,
            taken: vec![0; ops as usize],
            touched: Vec::with_capacity(64),
            free_run: false,
            over: false,
            stack: std::ptr::null_mut(),
            gregs: [0; 23],
            fp: std::ptr::null_mut(),
        }
    }

    /// Measure instead of enforce: beyond the budget, finish at full speed.
    pub fn measuring(mut self) -> Task {
        self.free_run = true;
        self
    }

    /// Operations completed before the one it was in last.
    pub fn reached(&self) -> u32 {
        self.op
    }

    pub fn stuck(&self) -> Option<u32> {
        if self.state == State::Stuck {
            Some(self.op)
        } else {
            None
        }
    }

    pub fn done(&self) -> bool {
        self.state == State::Done
    }
}

pub struct Sched {
    pub tasks: Vec<Task>,
    text: (usize, usize),
    data: Vec<(usize, usize)>,
    watch: bool,
    /// Run at full speed once nothing more is planned for any task.
    coast: bool,
    unlocked: bool,
    panics: *const u32,
    panics_before: u32,
    current: usize,
    main_gregs: [i64; 23],
    main_fp: *mut u8,
    entering: bool,
    /// Tasks that gave way, most recent last.
    waiting: Vec<usize>,
    pub total: u64,
    pub switches: u64,
    pub abandoned: u64,
    /// Digest of the schedule that really happened.
    pub trace: u64,
    /// Where switches happened, relative to the library's text.
    pub places: Vec<u64>,
}

static mut CURRENT: *mut Sched = std::ptr::null_mut();

fn map(len: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut u8
    }
}

extern "C" fn entry() -> ! {
    unsafe {
        let t: *mut Task = &mut (&mut (*CURRENT).tasks)[(*CURRENT).current];
        for j in 0..(*t).ops {
            std::ptr::write_volatile(&mut (*t).op, j);
            ((*t).body)(j);
        }
        std::ptr::write_volatile(&mut (*t).finished, true);
        loop {
            core::arch::asm!("int3");
        }
    }
}

unsafe fn fp_size(fp: *const u8) -> usize {
    let magic = std::ptr::read_unaligned(fp.add(464) as *const u32);
    let size = if magic == 0x4650_5853 { std::ptr::read_unaligned(fp.add(468) as *const u32) as usize } else { 512 };
    size.min(FPSTATE)
}

unsafe fn save(uc: *mut libc::ucontext_t, gregs: &mut [i64; 23], fp: *mut u8) {
    let m = &mut (*uc).uc_mcontext;
    gregs.copy_from_slice(&m.gregs);
    let src = m.fpregs as *const u8;
    if !src.is_null() {
        std::ptr::copy_nonoverlapping(src, fp, fp_size(src));
    }
}

unsafe fn load(uc: *mut libc::ucontext_t, gregs: &[i64; 23], fp: *const u8) {
    let m = &mut (*uc).uc_mcontext;
    m.gregs.copy_from_slice(gregs);
    let dst = m.fpregs as *mut u8;
    if !dst.is_null() {
        std::ptr::copy_nonoverlapping(fp, dst, fp_size(dst));
    }
}

impl Sched {
    pub fn new(node: &Node, tasks: Vec<Task>, watch: bool) -> Sched {
        Sched {
            tasks,
            text: node.text,
            data: node.data.clone(),
            watch,
            coast: false,
            unlocked: false,
            panics: unsafe { (node.api.panics)() },
            panics_before: unsafe { *(node.api.panics)() },
            current: 0,
            main_gregs: [0; 23],
            main_fp: map(FPSTATE),
            entering: false,
            waiting: Vec::with_capacity(64),
            total: 0,
            switches: 0,
            abandoned: 0,
            trace: 0xcbf2_9ce4_8422_2325,
            places: Vec::with_capacity(1024),
        }
    }

    /// Do not step where no event can happen any more; budgets stop counting.
    pub fn coasting(mut self) -> Sched {
        self.coast = true;
        self
    }

    fn quiet(&self) -> bool {
        self.coast && self.tasks.iter().all(|t| t.next >= t.events.len() || !matches!(t.state, State::New | State::Suspended))
    }

    /// Run all tasks, the first one first, until none can go on.
    pub fn run(&mut self) {
        if self.tasks.is_empty() {
            return;
        }
        for t in self.tasks.iter_mut() {
            t.stack = map(STACK + 4096);
            t.fp = map(FPSTATE);
            unsafe { libc::mprotect(t.stack as *mut libc::c_void, 4096, libc::PROT_NONE) };
        }
        unsafe {
            let alt = libc::stack_t { ss_sp: map(256 << 10) as *mut libc::c_void, ss_flags: 0, ss_size: 256 << 10 };
            libc::sigaltstack(&alt, std::ptr::null_mut());
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            sa.sa_sigaction = on_trap as *const () as usize;
            libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
            if self.watch {
                let mut sa: libc::sigaction = std::mem::zeroed();
                sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
                sa.sa_sigaction = on_touch as *const () as usize;
                libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
                self.lock(true);
            }
            self.entering = true;
            CURRENT = self;
            core::arch::asm!("int3");
            if self.watch {
                self.lock(false);
                libc::signal(libc::SIGSEGV, libc::SIG_DFL);
            }
            CURRENT = std::ptr::null_mut();
            libc::signal(libc::SIGTRAP, libc::SIG_DFL);
        }
    }

    unsafe fn lock(&mut self, on: bool) {
        let prot = if on { libc::PROT_NONE } else { libc::PROT_READ | libc::PROT_WRITE };
        for (lo, hi) in &self.data {
            libc::mprotect(*lo as *mut libc::c_void, hi - lo, prot);
        }
        self.unlocked = !on;
    }

    unsafe fn start(&mut self, uc: *mut libc::ucontext_t, k: usize) {
        self.current = k;
        let first = self.tasks[k].state == State::New;
        if first {
            let top = self.tasks[k].stack as usize + 4096 + STACK - 64;
            let mut g = self.main_gregs;
            g[libc::REG_RIP as usize] = entry as *const () as i64;
            // as after a call: the stack is 8 off a 16-byte boundary
            g[libc::REG_RSP as usize] = (top & !15) as i64 - 8;
            g[libc::REG_RBP as usize] = 0;
            load(uc, &g, self.main_fp);
        } else {
            let t = &self.tasks[k];
            load(uc, &t.gregs, t.fp);
        }
        self.tasks[k].state = State::Suspended;
        let quiet = self.quiet();
        let flags = &mut (&mut (*uc).uc_mcontext.gregs)[libc::REG_EFL as usize];
        *flags = if quiet { *flags & !TF } else { *flags | TF };
    }

    fn runnable(&self, k: usize) -> bool {
        matches!(self.tasks[k].state, State::New | State::Suspended)
    }

    /// The current task is over: whoever gave way last goes on, then whoever
    /// has not started.
    unsafe fn next(&mut self, uc: *mut libc::ucontext_t) {
        while let Some(k) = self.waiting.pop() {
            if self.runnable(k) && k != self.current {
                return self.start(uc, k);
            }
        }
        for k in 0..self.tasks.len() {
            if self.runnable(k) {
                return self.start(uc, k);
            }
        }
        load(uc, &self.main_gregs, self.main_fp);
        (&mut (*uc).uc_mcontext.gregs)[libc::REG_EFL as usize] &= !TF;
    }

    fn note(&mut self, w: u64) {
        self.trace = crate::rng::mix(self.trace ^ w);
    }

    unsafe fn trap(&mut self, uc: *mut libc::ucontext_t) {
        if self.unlocked && self.watch {
            if std::ptr::read_volatile(self.panics) != self.panics_before {
                // unwinding is not measured
                let cur = self.current;
                self.tasks[cur].over = true;
                self.watch = false;
                (&mut (*uc).uc_mcontext.gregs)[libc::REG_EFL as usize] &= !TF;
                return;
            }
            self.lock(true);
        }
        if self.entering {
            self.entering = false;
            let fp = self.main_fp;
            save(uc, &mut self.main_gregs, fp);
            return self.start(uc, 0);
        }
        let cur = self.current;
        if std::ptr::read_volatile(&self.tasks[cur].finished) {
            self.tasks[cur].state = State::Done;
            self.note(cur as u64 | 1 << 40);
            return self.next(uc);
        }
        let rip = (&(*uc).uc_mcontext.gregs)[libc::REG_RIP as usize] as usize;
        if rip < self.text.0 || rip >= self.text.1 {
            return;
        }
        self.total += 1;
        let text0 = self.text.0;
        let t = &mut self.tasks[cur];
        let op = std::ptr::read_volatile(&t.op);
        if op != t.seen_op {
            t.seen_op = op;
            t.steps = 0;
        }
        t.steps += 1;
        t.taken[op as usize] = t.steps;
        if t.steps > (t.budget)(op) {
            t.over = true;
            if t.free_run {
                (&mut (*uc).uc_mcontext.gregs)[libc::REG_EFL as usize] &= !TF;
                if self.watch {
                    self.lock(false);
                    self.watch = false;
                }
                return;
            }
            t.state = State::Stuck;
            return self.next(uc);
        }
        // events that were for earlier operations can no longer happen
        while t.next < t.events.len() && t.events[t.next].op < op {
            t.next += 1;
        }
        if t.next < t.events.len() && t.events[t.next].op == op && t.steps >= t.events[t.next].step {
            let what = t.events[t.next].what;
            t.next += 1;
            let steps = t.steps;
            match what {
                What::SwitchTo(k) => {
                    let k = k % self.tasks.len();
                    if k == cur || !self.runnable(k) {
                        return;
                    }
                    let t = &mut self.tasks[cur];
                    let fp = t.fp;
                    save(uc, &mut t.gregs, fp);
                    self.waiting.retain(|w| *w != k);
                    self.waiting.push(cur);
                    self.switches += 1;
                    self.note((cur as u64) << 56 ^ (k as u64) << 48 ^ steps);
                    if self.places.len() < 1024 {
                        self.places.push((rip - text0) as u64);
                    }
                    self.start(uc, k)
                },
                What::Abandon => {
                    t.state = State::Abandoned;
                    // its stack becomes somebody else's memory
                    let stack = t.stack.add(4096);
                    std::ptr::write_bytes(stack, 0xdb, STACK);
                    self.abandoned += 1;
                    self.note((cur as u64) << 56 ^ 1 << 44 ^ steps);
                    if self.places.len() < 1024 {
                        self.places.push((rip - text0) as u64 | 1 << 63);
                    }
                    self.next(uc)
                },
            }
        }
    }
}

extern "C" fn on_trap(_sig: i32, _info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        if CURRENT.is_null() {
            return;
        }
        (*CURRENT).trap(uc as *mut libc::ucontext_t)
    }
}

/// The library touched its own writable memory: remember when, let the one
/// instruction through.
extern "C" fn on_touch(_sig: i32, info: *mut libc::siginfo_t, _uc: *mut libc::c_void) {
    unsafe {
        let addr = (*info).si_addr() as usize;
        let s = CURRENT;
        if !s.is_null() && (*s).watch && !(*s).unlocked && (*s).data.iter().any(|(lo, hi)| addr >= *lo && addr < *hi) {
            (*s).lock(false);
            let cur = (*s).current;
            let t = &mut (&mut (*s).tasks)[cur];
            if t.touched.len() < 64 {
                t.touched.push(t.steps);
            }
            return;
        }
        libc::signal(libc::SIGSEGV, libc::SIG_DFL);
    }
}

static mut SCOUTED: Vec<(usize, usize)> = vec![];
static mut TOUCHED: bool = false;

extern "C" fn on_scouted(_sig: i32, info: *mut libc::siginfo_t, _uc: *mut libc::c_void) {
    unsafe {
        let addr = (*info).si_addr() as usize;
        let data = &*std::ptr::addr_of!(SCOUTED);
        if TOUCHED || !data.iter().any(|(lo, hi)| addr >= *lo && addr < *hi) {
            libc::signal(libc::SIGSEGV, libc::SIG_DFL);
            return;
        }
        TOUCHED = true;
        protect(data, libc::PROT_READ | libc::PROT_WRITE);
    }
}

unsafe fn protect(data: &[(usize, usize)], prot: i32) {
    for (lo, hi) in data {
        libc::mprotect(*lo as *mut libc::c_void, hi - lo, prot);
    }
}

/// Whether the node's writable memory is touched while `f` runs, at full
/// speed. Meant for a forked process: the handler stays.
pub fn touches(node: &Node, f: &mut dyn FnMut()) -> bool {
    unsafe {
        let data = &mut *std::ptr::addr_of_mut!(SCOUTED);
        if data.is_empty() {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_flags = libc::SA_SIGINFO;
            sa.sa_sigaction = on_scouted as *const () as usize;
            libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
            data.extend_from_slice(&node.data);
        }
        TOUCHED = false;
        protect(data, libc::PROT_NONE);
        f();
        protect(data, libc::PROT_READ | libc::PROT_WRITE);
        std::ptr::read_volatile(std::ptr::addr_of!(TOUCHED))
    }
}
