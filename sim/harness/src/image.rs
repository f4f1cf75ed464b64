//! The canister image: a shared library whose whole mutable state (heap arena, data segment, thread-locals) the
//! simulator can snapshot, roll back and wipe, as the replica does with a wasm instance.
use std::arch::global_asm;
use std::ffi::{c_void, CStr, CString};

global_asm!(
    ".global sim_enter",
    "sim_enter:", // rdi = function, rsi = argument, rdx = jump buffer
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdx], rsp",
    "sub rsp, 8",
    "mov rax, rdi",
    "mov rdi, rsi",
    "call rax",
    "add rsp, 8",
    "xor eax, eax",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    ".global sim_jump",
    "sim_jump:", // rdi = jump buffer: makes the matching sim_enter return 1
    "mov rsp, [rdi]",
    "mov eax, 1",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
);

extern "C" {
    pub fn sim_enter(f: usize, arg: usize, jb: *mut usize) -> i32;
    pub fn sim_jump(jb: *const usize) -> !;
}

#[derive(Clone, Copy)]
struct Region {
    addr: usize,
    len: usize,
}

#[derive(Default, Clone)]
pub struct Snapshot {
    fixed: Vec<Vec<u8>>,
    arena: Vec<u8>,
}

pub struct Image {
    handle: *mut c_void,
    fixed: Vec<Region>,
    arena_base: usize,
    arena_top: unsafe extern "C" fn(*mut usize, *mut usize),
    pristine: Snapshot,
}

struct Find {
    needle: usize,
    regions: Vec<Region>,
}

unsafe extern "C" fn each(info: *mut libc::dl_phdr_info, _: usize, data: *mut c_void) -> i32 {
    let find = &mut *(data as *mut Find);
    let info = &*info;
    let ph = std::slice::from_raw_parts(info.dlpi_phdr, info.dlpi_phnum as usize);
    let base = info.dlpi_addr as usize;
    let inside = ph.iter().any(|p| {
        p.p_type == libc::PT_LOAD
            && find.needle >= base + p.p_vaddr as usize
            && find.needle < base + (p.p_vaddr + p.p_memsz) as usize
    });
    if !inside {
        return 0;
    }
    let relro_end = ph
        .iter()
        .filter(|p| p.p_type == libc::PT_GNU_RELRO)
        .map(|p| base + (p.p_vaddr + p.p_memsz) as usize)
        .max()
        .unwrap_or(0);
    for p in ph {
        if p.p_type == libc::PT_LOAD && p.p_flags & libc::PF_W != 0 {
            let start = base + p.p_vaddr as usize;
            let end = start + p.p_memsz as usize;
            // The relocated read-only part is page-aligned down by the loader.
            let start = if relro_end > start && relro_end <= end { relro_end } else { start };
            let start = (start + 15) & !15;
            if end > start {
                find.regions.push(Region { addr: start, len: end - start });
            }
        }
        if p.p_type == libc::PT_TLS {
            assert!(!info.dlpi_tls_data.is_null(), "thread-local block of the image is not allocated");
            find.regions.push(Region { addr: info.dlpi_tls_data as usize, len: p.p_memsz as usize });
        }
    }
    1
}

impl Image {
    pub unsafe fn load(path: &str) -> Image {
        let c = CString::new(path).unwrap();
        let handle = libc::dlopen(c.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
        if handle.is_null() {
            panic!("dlopen {}: {}", path, CStr::from_ptr(libc::dlerror()).to_string_lossy());
        }
        let mut image = Image {
            handle,
            fixed: vec![],
            arena_base: 0,
            arena_top: std::mem::transmute::<usize, unsafe extern "C" fn(*mut usize, *mut usize)>(1),
            pristine: Snapshot::default(),
        };
        image.arena_top = std::mem::transmute(image.symbol("sim_arena").expect("sim_arena"));
        let touch: unsafe extern "C" fn() = std::mem::transmute(image.symbol("sim_touch_tls").expect("sim_touch_tls"));
        touch();
        let (mut base, mut top) = (0, 0);
        (image.arena_top)(&mut base, &mut top);
        image.arena_base = base;
        let mut find = Find { needle: image.symbol("sim_arena").unwrap(), regions: vec![] };
        libc::dl_iterate_phdr(Some(each), &mut find as *mut Find as *mut c_void);
        assert!(find.regions.len() >= 2, "no writable regions found in the image");
        image.fixed = find.regions;
        image
    }

    pub fn symbol(&self, name: &str) -> Option<usize> {
        let c = CString::new(name).unwrap();
        let p = unsafe { libc::dlsym(self.handle, c.as_ptr()) };
        if p.is_null() {
            None
        } else {
            Some(p as usize)
        }
    }

    pub fn set_pristine(&mut self) {
        let mut s = Snapshot::default();
        unsafe { self.save(&mut s) };
        self.pristine = s;
    }

    pub unsafe fn save(&self, s: &mut Snapshot) {
        s.fixed.resize(self.fixed.len(), vec![]);
        for (r, b) in self.fixed.iter().zip(s.fixed.iter_mut()) {
            b.clear();
            b.extend_from_slice(std::slice::from_raw_parts(r.addr as *const u8, r.len));
        }
        let (mut base, mut top) = (0, 0);
        (self.arena_top)(&mut base, &mut top);
        s.arena.clear();
        s.arena.extend_from_slice(std::slice::from_raw_parts(base as *const u8, top - base));
    }

    pub unsafe fn restore(&self, s: &Snapshot) {
        for (r, b) in self.fixed.iter().zip(s.fixed.iter()) {
            std::ptr::copy_nonoverlapping(b.as_ptr(), r.addr as *mut u8, r.len);
        }
        std::ptr::copy_nonoverlapping(s.arena.as_ptr(), self.arena_base as *mut u8, s.arena.len());
    }

    /// A fresh instance: nothing of the previous one's memory survives.
    pub unsafe fn wipe(&self) {
        self.restore(&self.pristine);
    }

    pub fn heap_bytes(&self) -> usize {
        let (mut base, mut top) = (0, 0);
        unsafe { (self.arena_top)(&mut base, &mut top) };
        top - base
    }
}
