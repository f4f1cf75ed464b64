//! A one-canister replica: message execution with atomic rollback, call contexts, callbacks and cleanup,
//! stable memory, cycles, the global timer, stop/upgrade/start.  The canister runs the real code.
use crate::image::{sim_enter, sim_jump, Image, Snapshot};
use std::collections::BTreeMap;

#[allow(dead_code)]
mod table {
    include!("../../vendor/ic0/src/table.rs");
}
use table::System;

pub const PAGE: usize = 65536;
const STABLE_CAP: usize = 1 << 31;

/// Stable memory with an undo log for the message being executed.
pub struct Stable {
    base: usize,
    pages: usize,
    high: usize,
    undo: Vec<(usize, Vec<u8>)>,
    undo_pages: usize,
}

impl Stable {
    fn new() -> Self {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                STABLE_CAP,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Stable { base: p as usize, pages: 0, high: 0, undo: vec![], undo_pages: 0 }
    }
    fn clear(&mut self) {
        // Zero what was written; pages stay mapped.
        let mut off = 0;
        while off < self.high {
            // Only touched pages are non-zero; MADV_DONTNEED drops them all at once.
            off = self.high;
        }
        if off > 0 {
            unsafe { libc::madvise(self.base as *mut _, (off + 4095) & !4095, libc::MADV_DONTNEED) };
        }
        self.pages = 0;
        self.high = 0;
        self.undo.clear();
        self.undo_pages = 0;
    }
    fn begin(&mut self) {
        self.undo.clear();
        self.undo_pages = self.pages;
    }
    fn rollback(&mut self) {
        while let Some((off, old)) = self.undo.pop() {
            unsafe { std::ptr::copy_nonoverlapping(old.as_ptr(), (self.base + off) as *mut u8, old.len()) };
        }
        self.pages = self.undo_pages;
    }
    fn in_range(&self, off: usize, size: usize) -> bool {
        off.checked_add(size).map_or(false, |e| e <= self.pages * PAGE)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    None,
    Init,
    PreUpgrade,
    PostUpgrade,
    Update,
    Query,
    Timer,
    Callback,
    Cleanup,
}

#[derive(Clone, Debug)]
pub struct OutCall {
    pub callee: Vec<u8>,
    pub method: String,
    pub arg: Vec<u8>,
    pub cycles: u128,
    reply: (usize, usize),
    reject: (usize, usize),
    cleanup: Option<(usize, usize)>,
}

/// What the system API sees while a message executes.
pub struct Exec {
    pub image: Image,
    stable: Stable,
    mode: Mode,
    pub self_id: Vec<u8>,
    pub now: u64,
    pub balance: u128,
    pub controllers: Vec<Vec<u8>>,
    arg: Vec<u8>,
    caller: Vec<u8>,
    method: Vec<u8>,
    reject_code: i32,
    reject_msg: Vec<u8>,
    refunded: u128,
    reply_buf: Vec<u8>,
    reply: Option<Result<Vec<u8>, String>>,
    call: Option<OutCall>,
    calls: Vec<OutCall>,
    responded: bool,
    timer: u64,
    new_timer: Option<u64>,
    trap: Option<String>,
    jb: usize,
    snap: Snapshot,
    pub syscalls: u64,
    pub trap_at: Option<u64>,
    /// Number of calls made so far and the ordinals whose `call_perform` fails synchronously.
    pub performs: u64,
    pub fail_perform: Option<Box<dyn FnMut(u64, &OutCall) -> i32>>,
    pub debug: Option<Vec<String>>,
    pub version: u64,
    /// Stable memory was written since this was last cleared.
    pub dirty: bool,
}

static mut EXEC: *mut Exec = std::ptr::null_mut();
fn x() -> &'static mut Exec {
    unsafe { &mut *EXEC }
}

fn die(msg: &str) -> ! {
    eprintln!("SIMULATOR ERROR: {}", msg);
    unsafe { libc::_exit(3) }
}

unsafe fn do_trap(msg: String) -> ! {
    let e = x();
    if e.mode == Mode::None {
        die(&format!("trap outside of a message: {}", msg));
    }
    e.trap = Some(msg);
    sim_jump(&e.jb);
}

unsafe fn tick() {
    let e = x();
    e.syscalls += 1;
    if e.trap_at == Some(e.syscalls) {
        do_trap("injected trap".into());
    }
}

unsafe fn slice(src: isize, size: isize) -> Vec<u8> {
    std::slice::from_raw_parts(src as *const u8, size as usize).to_vec()
}
unsafe fn copy(data: &[u8], dst: isize, offset: isize, size: isize) {
    let (o, s) = (offset as usize, size as usize);
    if o.checked_add(s).map_or(true, |end| end > data.len()) {
        do_trap("copy out of bounds".into());
    }
    std::ptr::copy_nonoverlapping(data.as_ptr().add(o), dst as *mut u8, s);
}

macro_rules! sized {
    ($size:ident, $copy:ident, $field:ident) => {
        unsafe extern "C" fn $size() -> isize {
            tick();
            x().$field.len() as isize
        }
        unsafe extern "C" fn $copy(dst: isize, offset: isize, size: isize) {
            copy(&x().$field, dst, offset, size)
        }
    };
}
sized!(msg_arg_data_size, msg_arg_data_copy, arg);
sized!(msg_caller_size, msg_caller_copy, caller);
sized!(msg_reject_msg_size, msg_reject_msg_copy, reject_msg);
sized!(canister_self_size, canister_self_copy, self_id);
sized!(msg_method_name_size, msg_method_name_copy, method);

unsafe extern "C" fn msg_reject_code() -> i32 {
    x().reject_code
}
unsafe extern "C" fn msg_reply_data_append(src: isize, size: isize) {
    tick();
    let b = slice(src, size);
    x().reply_buf.extend_from_slice(&b);
}
unsafe extern "C" fn msg_reply() {
    tick();
    let e = x();
    if e.responded || e.reply.is_some() {
        do_trap("msg_reply: already replied".into());
    }
    e.reply = Some(Ok(std::mem::take(&mut e.reply_buf)));
}
unsafe extern "C" fn msg_reject(src: isize, size: isize) {
    tick();
    let m = String::from_utf8_lossy(&slice(src, size)).to_string();
    let e = x();
    if e.responded || e.reply.is_some() {
        do_trap("msg_reject: already replied".into());
    }
    e.reply = Some(Err(m));
}
unsafe extern "C" fn msg_cycles_available() -> i64 {
    0
}
unsafe fn put128(dst: isize, v: u128) {
    std::ptr::copy_nonoverlapping(v.to_le_bytes().as_ptr(), dst as *mut u8, 16);
}
unsafe extern "C" fn msg_cycles_available128(dst: isize) {
    put128(dst, 0)
}
unsafe extern "C" fn msg_cycles_refunded() -> i64 {
    x().refunded as i64
}
unsafe extern "C" fn msg_cycles_refunded128(dst: isize) {
    put128(dst, x().refunded)
}
unsafe extern "C" fn msg_cycles_accept(_: i64) -> i64 {
    0
}
unsafe extern "C" fn msg_cycles_accept128(_: i64, _: i64, dst: isize) {
    put128(dst, 0)
}
unsafe extern "C" fn cycles_burn128(_: i64, _: i64, dst: isize) {
    put128(dst, 0)
}
fn liquid() -> u128 {
    let e = x();
    let used: u128 = e.calls.iter().map(|c| c.cycles).sum::<u128>() + e.call.as_ref().map_or(0, |c| c.cycles);
    e.balance.saturating_sub(used)
}
unsafe extern "C" fn canister_cycle_balance() -> i64 {
    tick();
    liquid().min(u64::MAX as u128) as i64
}
unsafe extern "C" fn canister_cycle_balance128(dst: isize) {
    tick();
    put128(dst, liquid())
}
unsafe extern "C" fn canister_status() -> i32 {
    1
}
unsafe extern "C" fn canister_version() -> i64 {
    x().version as i64
}
unsafe extern "C" fn accept_message() {}
#[allow(clippy::too_many_arguments)]
unsafe extern "C" fn call_new(
    callee_src: isize,
    callee_size: isize,
    name_src: isize,
    name_size: isize,
    reply_fun: isize,
    reply_env: isize,
    reject_fun: isize,
    reject_env: isize,
) {
    tick();
    let e = x();
    if !matches!(e.mode, Mode::Update | Mode::Timer | Mode::Callback) {
        do_trap(format!("call_new cannot be called in mode {:?}", e.mode));
    }
    e.call = Some(OutCall {
        callee: slice(callee_src, callee_size),
        method: String::from_utf8_lossy(&slice(name_src, name_size)).to_string(),
        arg: vec![],
        cycles: 0,
        reply: (reply_fun as usize, reply_env as usize),
        reject: (reject_fun as usize, reject_env as usize),
        cleanup: None,
    });
}
unsafe fn cur() -> &'static mut OutCall {
    match x().call.as_mut() {
        Some(c) => c,
        None => do_trap("no call under construction".into()),
    }
}
unsafe extern "C" fn call_on_cleanup(fun: isize, env: isize) {
    cur().cleanup = Some((fun as usize, env as usize));
}
unsafe extern "C" fn call_data_append(src: isize, size: isize) {
    let b = slice(src, size);
    cur().arg.extend_from_slice(&b);
}
unsafe extern "C" fn call_cycles_add(amount: i64) {
    call_cycles_add128(0, amount)
}
unsafe extern "C" fn call_cycles_add128(high: i64, low: i64) {
    let a = ((high as u64 as u128) << 64) | low as u64 as u128;
    if a > liquid() {
        do_trap("call_cycles_add: insufficient cycles".into());
    }
    cur().cycles += a;
}
unsafe extern "C" fn call_perform() -> i32 {
    tick();
    let e = x();
    let c = match e.call.take() {
        Some(c) => c,
        None => do_trap("no call under construction".into()),
    };
    e.performs += 1;
    let n = e.performs;
    let code = match e.fail_perform.as_mut() {
        Some(f) => f(n, &c),
        None => 0,
    };
    if code == 0 {
        e.calls.push(c);
    }
    code
}
unsafe extern "C" fn stable_size() -> isize {
    x().stable.pages as isize
}
unsafe extern "C" fn stable_grow(n: isize) -> isize {
    stable64_grow(n as i64) as isize
}
unsafe extern "C" fn stable_write(offset: isize, src: isize, size: isize) {
    stable64_write(offset as i64, src as i64, size as i64)
}
unsafe extern "C" fn stable_read(dst: isize, offset: isize, size: isize) {
    stable64_read(dst as i64, offset as i64, size as i64)
}
unsafe extern "C" fn stable64_size() -> i64 {
    x().stable.pages as i64
}
unsafe extern "C" fn stable64_grow(n: i64) -> i64 {
    tick();
    let s = &mut x().stable;
    let old = s.pages;
    if (old + n as usize) * PAGE > STABLE_CAP {
        return -1;
    }
    s.pages += n as usize;
    old as i64
}
unsafe extern "C" fn stable64_write(offset: i64, src: i64, size: i64) {
    tick();
    let (off, n) = (offset as usize, size as usize);
    x().dirty = true;
    let s = &mut x().stable;
    if !s.in_range(off, n) {
        do_trap("stable memory out of bounds".into());
    }
    let at = (s.base + off) as *mut u8;
    s.undo.push((off, std::slice::from_raw_parts(at, n).to_vec()));
    std::ptr::copy_nonoverlapping(src as *const u8, at, n);
    s.high = s.high.max(off + n);
}
unsafe extern "C" fn stable64_read(dst: i64, offset: i64, size: i64) {
    let (off, n) = (offset as usize, size as usize);
    let s = &x().stable;
    if !s.in_range(off, n) {
        do_trap("stable memory out of bounds".into());
    }
    std::ptr::copy_nonoverlapping((s.base + off) as *const u8, dst as *mut u8, n);
}
unsafe extern "C" fn certified_data_set(_: isize, _: isize) {}
unsafe extern "C" fn data_certificate_present() -> i32 {
    0
}
unsafe extern "C" fn data_certificate_size() -> isize {
    0
}
unsafe extern "C" fn data_certificate_copy(_: isize, _: isize, _: isize) {}
unsafe extern "C" fn time() -> i64 {
    tick();
    x().now as i64
}
unsafe extern "C" fn global_timer_set(t: i64) -> i64 {
    let e = x();
    let old = e.new_timer.unwrap_or(e.timer);
    e.new_timer = Some(t as u64);
    old as i64
}
unsafe extern "C" fn performance_counter(_: i32) -> i64 {
    (x().syscalls * 1000) as i64
}
unsafe extern "C" fn is_controller(src: isize, size: isize) -> i32 {
    let p = slice(src, size);
    x().controllers.contains(&p) as i32
}
unsafe extern "C" fn in_replicated_execution() -> i32 {
    1
}
unsafe extern "C" fn debug_print(src: isize, size: isize) {
    let e = x();
    if let Some(d) = e.debug.as_mut() {
        let s = String::from_utf8_lossy(&slice(src, size)).to_string();
        d.push(format!("{} {}", e.now / 1_000_000_000, s));
    }
}
unsafe extern "C" fn trap(src: isize, size: isize) {
    do_trap(String::from_utf8_lossy(&slice(src, size)).to_string())
}

static SYSTEM: System = System {
    msg_arg_data_size,
    msg_arg_data_copy,
    msg_caller_size,
    msg_caller_copy,
    msg_reject_code,
    msg_reject_msg_size,
    msg_reject_msg_copy,
    msg_reply_data_append,
    msg_reply,
    msg_reject,
    msg_cycles_available,
    msg_cycles_available128,
    msg_cycles_refunded,
    msg_cycles_refunded128,
    msg_cycles_accept,
    msg_cycles_accept128,
    cycles_burn128,
    canister_self_size,
    canister_self_copy,
    canister_cycle_balance,
    canister_cycle_balance128,
    canister_status,
    canister_version,
    msg_method_name_size,
    msg_method_name_copy,
    accept_message,
    call_new,
    call_on_cleanup,
    call_data_append,
    call_cycles_add,
    call_cycles_add128,
    call_perform,
    stable_size,
    stable_grow,
    stable_write,
    stable_read,
    stable64_size,
    stable64_grow,
    stable64_write,
    stable64_read,
    certified_data_set,
    data_certificate_present,
    data_certificate_size,
    data_certificate_copy,
    time,
    global_timer_set,
    performance_counter,
    is_controller,
    in_replicated_execution,
    debug_print,
    trap,
};

/// Deterministic randomness for everything in the process that asks the kernel (hash-map seeds).
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        *buf.add(i) = (i as u8).wrapping_mul(37).wrapping_add(11);
    }
    len as isize
}

/// Who is waiting for the outcome of a call context.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Origin {
    User(u64),
    SelfCall(u64),
    System,
}

#[derive(Clone, Debug)]
pub struct Context {
    pub origin: Origin,
    pub label: String,
    pub outstanding: u32,
    pub responded: bool,
}

#[derive(Clone, Debug)]
pub struct Callback {
    pub ctx: u64,
    pub call: OutCall,
}

#[derive(Clone, Debug)]
pub enum Response {
    Reply(Vec<u8>),
    Reject(i32, String),
}

/// Outcome of one executed message, for the world to act on.
#[derive(Default, Debug)]
pub struct Effects {
    /// New calls: (callback id, call).
    pub calls: Vec<(u64, OutCall)>,
    /// Call contexts answered by this message.
    pub answers: Vec<(Origin, Response)>,
    pub trapped: Option<String>,
    /// The trap that happened in the cleanup callback, if any.
    pub cleanup_trapped: Option<String>,
    pub label: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Status {
    Empty,
    Running,
    Stopping,
    Stopped,
}

pub struct Replica {
    pub status: Status,
    pub contexts: BTreeMap<u64, Context>,
    pub callbacks: BTreeMap<u64, Callback>,
    next: u64,
    pub messages: u64,
    pub traps: u64,
}

impl Replica {
    /// Loads the image once per process.
    pub fn load(path: &str) -> Replica {
        unsafe {
            let mut image = Image::load(path);
            let install: unsafe extern "C" fn(&'static System) =
                std::mem::transmute(image.symbol("sim_install").expect("sim_install"));
            install(&SYSTEM);
            image.set_pristine();
            EXEC = Box::into_raw(Box::new(Exec {
                image,
                stable: Stable::new(),
                mode: Mode::None,
                self_id: vec![],
                now: 0,
                balance: 0,
                controllers: vec![],
                arg: vec![],
                caller: vec![],
                method: vec![],
                reject_code: 0,
                reject_msg: vec![],
                refunded: 0,
                reply_buf: vec![],
                reply: None,
                call: None,
                calls: vec![],
                responded: false,
                timer: 0,
                new_timer: None,
                trap: None,
                jb: 0,
                snap: Snapshot::default(),
                syscalls: 0,
                trap_at: None,
                performs: 0,
                fail_perform: None,
                debug: None,
                version: 0,
                dirty: false,
            }));
        }
        Replica {
            status: Status::Empty,
            contexts: BTreeMap::new(),
            callbacks: BTreeMap::new(),
            next: 1,
            messages: 0,
            traps: 0,
        }
    }

    pub fn exec(&self) -> &'static mut Exec {
        x()
    }

    /// Back to an empty canister, for the next run.
    pub fn reset(&mut self) {
        let e = x();
        unsafe { e.image.wipe() };
        e.stable.clear();
        e.timer = 0;
        e.performs = 0;
        e.fail_perform = None;
        e.trap_at = None;
        e.debug = None;
        e.version = 0;
        self.status = Status::Empty;
        self.contexts.clear();
        self.callbacks.clear();
        self.next = 1;
        self.messages = 0;
        self.traps = 0;
    }

    /// Empties the instance after an installation that should not have worked.
    pub fn reset_instance(&mut self) {
        let e = x();
        unsafe { e.image.wipe() };
        e.stable.clear();
        e.timer = 0;
        self.status = Status::Empty;
    }

    pub fn has(&self, kind: &str, method: &str) -> bool {
        x().image.symbol(&symbol(kind, method)).is_some()
    }

    /// Runs one entry point; on a trap, every effect on the instance and on stable memory is undone.
    unsafe fn run(&mut self, mode: Mode, f: usize, env: usize) -> Result<(), String> {
        let e = x();
        e.mode = mode;
        e.reply_buf.clear();
        e.reply = None;
        e.call = None;
        e.calls.clear();
        e.new_timer = None;
        e.trap = None;
        e.syscalls = 0;
        let mut snap = std::mem::take(&mut e.snap);
        e.image.save(&mut snap);
        e.stable.begin();
        self.messages += 1;
        let jb: *mut usize = &mut e.jb;
        let r = sim_enter(f, env, jb);
        let e = x();
        e.mode = Mode::None;
        e.trap_at = None;
        let out = if r == 0 {
            Ok(())
        } else {
            e.image.restore(&snap);
            e.stable.rollback();
            e.calls.clear();
            e.reply = None;
            e.new_timer = None;
            self.traps += 1;
            Err(e.trap.take().unwrap_or_default())
        };
        e.snap = snap;
        out
    }

    /// Turns what a committed message did into effects.
    fn commit(&mut self, ctx: Option<u64>, fx: &mut Effects) {
        let e = x();
        if let Some(t) = e.new_timer.take() {
            e.timer = t;
        }
        for c in std::mem::take(&mut e.calls) {
            let id = self.next;
            self.next += 1;
            e.balance -= c.cycles;
            let cx = ctx.expect("a call needs a call context");
            self.contexts.get_mut(&cx).expect("open context").outstanding += 1;
            self.callbacks.insert(id, Callback { ctx: cx, call: c.clone() });
            fx.calls.push((id, c));
        }
        if let (Some(cx), Some(r)) = (ctx, e.reply.take()) {
            let c = self.contexts.get_mut(&cx).expect("open context");
            c.responded = true;
            let r = match r {
                Ok(b) => Response::Reply(b),
                Err(m) => Response::Reject(4, m),
            };
            fx.answers.push((c.origin.clone(), r));
        }
    }

    fn close_if_done(&mut self, cx: u64, trapped: &Option<String>, fx: &mut Effects) {
        let c = self.contexts.get(&cx).expect("open context").clone();
        if c.outstanding > 0 {
            return;
        }
        if !c.responded && c.origin != Origin::System {
            let r = match trapped {
                Some(m) => Response::Reject(5, format!("IC0503: canister trapped explicitly: {}", m)),
                None => Response::Reject(5, "IC0506: canister did not produce a response".into()),
            };
            fx.answers.push((c.origin.clone(), r));
        }
        self.contexts.remove(&cx);
    }

    fn set_msg(&self, method: &str, caller: &[u8], arg: &[u8]) {
        let e = x();
        e.method = method.as_bytes().to_vec();
        e.caller = caller.to_vec();
        e.arg = arg.to_vec();
        e.reject_code = 0;
        e.reject_msg.clear();
        e.refunded = 0;
        e.responded = false;
    }

    /// Installs the canister; the instance and stable memory start empty.
    pub fn install(&mut self, caller: &[u8], arg: &[u8]) -> Effects {
        self.set_msg("init", caller, arg);
        let f = x().image.symbol("canister_init").expect("canister_init");
        let mut fx = Effects { label: "init".into(), ..Default::default() };
        match unsafe { self.run(Mode::Init, f, 0) } {
            Ok(()) => {
                x().reply = None;
                self.commit(None, &mut fx);
                self.status = Status::Running;
            }
            Err(m) => fx.trapped = Some(m),
        }
        fx
    }

    /// pre_upgrade in the old instance, fresh instance, post_upgrade; all or nothing.
    pub fn upgrade(&mut self, caller: &[u8], arg: &[u8]) -> Effects {
        assert!(self.contexts.is_empty() && self.callbacks.is_empty(), "upgrade with open contexts");
        let e = x();
        let mut whole = Snapshot::default();
        unsafe { e.image.save(&mut whole) };
        let timer = e.timer;
        let mut fx = Effects { label: "upgrade".into(), ..Default::default() };
        self.set_msg("pre_upgrade", caller, arg);
        let mut undo = vec![];
        let pages = e.stable.pages;
        if let Some(f) = e.image.symbol("canister_pre_upgrade") {
            match unsafe { self.run(Mode::PreUpgrade, f, 0) } {
                Ok(()) => self.commit(None, &mut fx),
                Err(m) => {
                    fx.trapped = Some(format!("pre_upgrade: {}", m));
                    return fx;
                }
            }
            undo = std::mem::take(&mut x().stable.undo);
        }
        unsafe { x().image.wipe() };
        x().timer = 0;
        self.set_msg("post_upgrade", caller, arg);
        if let Some(f) = x().image.symbol("canister_post_upgrade") {
            match unsafe { self.run(Mode::PostUpgrade, f, 0) } {
                Ok(()) => {
                    x().reply = None;
                    self.commit(None, &mut fx)
                }
                Err(m) => {
                    let e = x();
                    unsafe { e.image.restore(&whole) };
                    e.stable.undo = undo;
                    e.stable.undo_pages = pages;
                    e.stable.rollback();
                    e.timer = timer;
                    fx.trapped = Some(format!("post_upgrade: {}", m));
                }
            }
        }
        x().version += 1;
        fx
    }

    /// Runs a whole upgrade (pre_upgrade, fresh instance, post_upgrade), lets `f` look at the result through
    /// queries, then undoes everything.  Returns the trap message if the upgrade failed.
    pub fn shadow_upgrade<R>(&mut self, caller: &[u8], arg: &[u8], f: impl FnOnce(&mut Replica) -> R) -> Result<R, String> {
        let e = x();
        let mut whole = Snapshot::default();
        unsafe { e.image.save(&mut whole) };
        let timer = e.timer;
        let pages = e.stable.pages;
        let (messages, traps) = (self.messages, self.traps);
        let mut undo = vec![];
        let mut out = Err(String::new());
        let steps = [("canister_pre_upgrade", "pre_upgrade", Mode::PreUpgrade), ("canister_post_upgrade", "post_upgrade", Mode::PostUpgrade)];
        let mut failed = None;
        for (sym, name, mode) in steps {
            if mode == Mode::PostUpgrade {
                unsafe { x().image.wipe() };
                x().timer = 0;
            }
            self.set_msg(name, caller, arg);
            if let Some(f) = x().image.symbol(sym) {
                match unsafe { self.run(mode, f, 0) } {
                    Ok(()) => {
                        let e = x();
                        e.reply = None;
                        e.new_timer = None;
                        undo.append(&mut e.stable.undo);
                    }
                    Err(m) => {
                        failed = Some(format!("{}: {}", name, m));
                        break;
                    }
                }
            }
        }
        match failed {
            None => out = Ok(f(self)),
            Some(m) => out = out.map_err(|_| m),
        }
        let e = x();
        unsafe { e.image.restore(&whole) };
        e.stable.undo = undo;
        e.stable.undo_pages = pages;
        e.stable.rollback();
        e.timer = timer;
        self.messages = messages;
        self.traps = traps;
        out
    }

    /// Non-zero stretches of stable memory.
    pub fn stable_dump(&self) -> (usize, Vec<(usize, Vec<u8>)>) {
        let s = &x().stable;
        let all = unsafe { std::slice::from_raw_parts(s.base as *const u8, s.high) };
        let mut out: Vec<(usize, Vec<u8>)> = vec![];
        for (i, c) in all.chunks(64).enumerate() {
            if c.iter().all(|b| *b == 0) {
                continue;
            }
            match out.last_mut() {
                Some((o, b)) if *o + b.len() == i * 64 => b.extend_from_slice(c),
                _ => out.push((i * 64, c.to_vec())),
            }
        }
        (s.pages, out)
    }
    pub fn stable_load(&mut self, pages: usize, memory: &[(usize, Vec<u8>)]) {
        let s = &mut x().stable;
        s.clear();
        s.pages = pages;
        for (o, b) in memory {
            unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), (s.base + o) as *mut u8, b.len()) };
            s.high = s.high.max(o + b.len());
        }
    }
    /// A fresh instance on the stable memory that is there.
    pub fn revive(&mut self, caller: &[u8], arg: &[u8]) -> Result<(), String> {
        unsafe { x().image.wipe() };
        x().timer = 0;
        self.set_msg("post_upgrade", caller, arg);
        if let Some(f) = x().image.symbol("canister_post_upgrade") {
            unsafe { self.run(Mode::PostUpgrade, f, 0) }?;
            let e = x();
            e.reply = None;
            e.new_timer = None;
        }
        Ok(())
    }

    /// Who waits for the context a callback belongs to, its label and id.
    pub fn owner(&self, cb: u64) -> Option<(Origin, String, u64)> {
        let c = self.callbacks.get(&cb)?;
        let x = self.contexts.get(&c.ctx)?;
        Some((x.origin.clone(), x.label.clone(), c.ctx))
    }

    /// Executes an update call.
    pub fn update(&mut self, method: &str, caller: &[u8], arg: &[u8], origin: Origin, label: &str) -> Effects {
        let mut fx = Effects { label: format!("update {}", label), ..Default::default() };
        let f = match x().image.symbol(&symbol("update", method)) {
            Some(f) => f,
            None => match x().image.symbol(&symbol("query", method)) {
                Some(f) => f,
                None => {
                    fx.answers.push((origin, Response::Reject(3, format!("IC0536: no update method '{}'", method))));
                    return fx;
                }
            },
        };
        self.set_msg(method, caller, arg);
        let cx = self.next;
        self.next += 1;
        self.contexts.insert(cx, Context { origin, label: label.to_string(), outstanding: 0, responded: false });
        self.finish(cx, f, Mode::Update, &mut fx);
        fx
    }

    fn finish(&mut self, cx: u64, f: usize, mode: Mode, fx: &mut Effects) {
        match unsafe { self.run(mode, f, 0) } {
            Ok(()) => self.commit(Some(cx), fx),
            Err(m) => fx.trapped = Some(m),
        }
        let t = fx.trapped.clone();
        self.close_if_done(cx, &t, fx);
    }

    /// Fires the global timer if it is due.
    pub fn global_timer(&mut self) -> Effects {
        let e = x();
        e.timer = 0;
        let mut fx = Effects { label: "timer".into(), ..Default::default() };
        let f = match e.image.symbol("canister_global_timer") {
            Some(f) => f,
            None => return fx,
        };
        let id = e.self_id.clone();
        self.set_msg("", &id, &[]);
        let cx = self.next;
        self.next += 1;
        self.contexts.insert(
            cx,
            Context { origin: Origin::System, label: "timer".into(), outstanding: 0, responded: false },
        );
        self.finish(cx, f, Mode::Timer, &mut fx);
        fx
    }

    pub fn timer(&self) -> u64 {
        x().timer
    }

    /// Delivers the response of an outgoing call; a trap in the callback runs its cleanup callback.
    pub fn respond(&mut self, cb: u64, r: &Response, refund: u128) -> Effects {
        let callback = self.callbacks.remove(&cb).expect("callback exists");
        let cx = callback.ctx;
        let ctx = self.contexts.get_mut(&cx).expect("open context");
        ctx.outstanding -= 1;
        let responded = ctx.responded;
        let label = ctx.label.clone();
        let e = x();
        e.balance += refund;
        self.set_msg("", &[], &[]);
        e.responded = responded;
        e.refunded = refund;
        let (f, env) = match r {
            Response::Reply(b) => {
                e.arg = b.clone();
                callback.call.reply
            }
            Response::Reject(code, m) => {
                e.reject_code = *code;
                e.reject_msg = m.as_bytes().to_vec();
                callback.call.reject
            }
        };
        let mut fx = Effects { label: format!("callback {} of {}", callback.call.method, label), ..Default::default() };
        if f == usize::MAX {
            // One-way call: the callback cannot run.
            let t = None;
            self.close_if_done(cx, &t, &mut fx);
            return fx;
        }
        match unsafe { self.run(Mode::Callback, f, env) } {
            Ok(()) => self.commit(Some(cx), &mut fx),
            Err(m) => {
                fx.trapped = Some(m);
                if let Some((f, env)) = callback.call.cleanup {
                    match unsafe { self.run(Mode::Cleanup, f, env) } {
                        Ok(()) => self.commit(Some(cx), &mut fx),
                        Err(m) => fx.cleanup_trapped = Some(m),
                    }
                }
            }
        }
        let t = fx.trapped.clone();
        self.close_if_done(cx, &t, &mut fx);
        fx
    }

    /// Executes a query: its effects are always rolled back.
    pub fn query(&mut self, method: &str, caller: &[u8], arg: &[u8]) -> Result<Vec<u8>, String> {
        let f = match x().image.symbol(&symbol("query", method)).or_else(|| x().image.symbol(&symbol("update", method))) {
            Some(f) => f,
            None => return Err(format!("IC0536: no query method '{}'", method)),
        };
        self.set_msg(method, caller, arg);
        let r = unsafe { self.run(Mode::Query, f, 0) };
        let e = x();
        let reply = e.reply.take();
        e.calls.clear();
        e.new_timer = None;
        self.messages -= 1;
        match r {
            Ok(()) => {
                let snap = std::mem::take(&mut e.snap);
                unsafe { e.image.restore(&snap) };
                e.stable.rollback();
                e.snap = snap;
                match reply {
                    Some(Ok(b)) => Ok(b),
                    Some(Err(m)) => Err(m),
                    None => Err("no reply".into()),
                }
            }
            Err(m) => {
                self.traps -= 1;
                Err(m)
            }
        }
    }
}

fn symbol(kind: &str, method: &str) -> String {
    let m = method.strip_prefix("<ic-cdk internal> ").unwrap_or(method);
    format!("canister_{}.{}", kind, m)
}
