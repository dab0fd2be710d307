//! nt-hive without std, without libc and, without the feature `alloc`, without any allocator:
//! links and reads hives, on 64 and on 32 bits.
//! Input on stdin: for each hive its length (8 bytes, little-endian) and its bytes.
//! Output: for each hive a digest and the number of observations (34 bytes with the newline).
#![no_std]
#![no_main]

mod walk;

const MAX: usize = 1 << 22;
static mut BUF: [u8; MAX] = [0; MAX];

#[cfg(target_arch = "x86_64")]
mod sys {
    use core::arch::asm;
    const READ: usize = 0;
    const WRITE: usize = 1;
    const EXIT: usize = 60;
    unsafe fn call(n: usize, a: usize, b: usize, c: usize) -> isize {
        let r: isize;
        asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, out("rcx") _, out("r11") _);
        r
    }
    pub unsafe fn read(b: *mut u8, n: usize) -> isize {
        call(READ, 0, b as usize, n)
    }
    pub unsafe fn write(fd: usize, b: *const u8, n: usize) -> isize {
        call(WRITE, fd, b as usize, n)
    }
    pub unsafe fn exit(c: usize) -> ! {
        call(EXIT, c, 0, 0);
        loop {}
    }
    core::arch::global_asm!(".globl _start", "_start:", "xor ebp, ebp", "and rsp, -16", "call hive_main", "ud2");
}

#[cfg(target_arch = "x86")]
mod sys {
    use core::arch::asm;
    const READ: usize = 3;
    const WRITE: usize = 4;
    const EXIT: usize = 1;
    // ebx is reserved by the compiler: saved by hand
    unsafe fn call(n: usize, a: usize, b: usize, c: usize) -> isize {
        let r: isize;
        asm!("push ebx", "mov ebx, {a}", "int 0x80", "pop ebx", a = in(reg) a, inlateout("eax") n as isize => r, in("ecx") b, in("edx") c);
        r
    }
    pub unsafe fn read(b: *mut u8, n: usize) -> isize {
        call(READ, 0, b as usize, n)
    }
    pub unsafe fn write(fd: usize, b: *const u8, n: usize) -> isize {
        call(WRITE, fd, b as usize, n)
    }
    pub unsafe fn exit(c: usize) -> ! {
        call(EXIT, c, 0, 0);
        loop {}
    }
    core::arch::global_asm!(".globl _start", "_start:", "xor ebp, ebp", "and esp, -16", "call hive_main", "ud2");
}

#[cfg(target_arch = "wasm32")]
mod sys {
    // provided by ../wasm.js
    #[link(wasm_import_module = "env")]
    extern "C" {
        pub fn read(b: *mut u8, n: usize) -> isize;
        pub fn write(fd: usize, b: *const u8, n: usize) -> isize;
        pub fn exit(c: usize) -> !;
    }
}

// A prebuilt core library comes without these.
#[cfg(target_arch = "x86_64")]
mod mem {
    use core::arch::asm;
    #[no_mangle]
    unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _);
        d
    }
    #[no_mangle]
    unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        if (d as usize) <= s as usize || d as usize >= s as usize + n {
            return memcpy(d, s, n);
        }
        let (de, se) = (d.wrapping_add(n).wrapping_sub(1), s.wrapping_add(n).wrapping_sub(1));
        asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") de => _, inout("rsi") se => _);
        d
    }
    #[no_mangle]
    unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
        asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8);
        d
    }
    #[no_mangle]
    unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        for i in 0..n {
            let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
            if x != y {
                return x as i32 - y as i32;
            }
        }
        0
    }
    #[no_mangle]
    unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        memcmp(a, b, n)
    }
}

struct Err2;
impl core::fmt::Write for Err2 {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        // SAFETY: writes the string.
        unsafe { sys::write(2, s.as_ptr(), s.len()) };
        Ok(())
    }
}

#[panic_handler]
fn panic(i: &core::panic::PanicInfo) -> ! {
    use core::fmt::Write;
    let _ = write!(Err2, "{i}");
    // SAFETY: ends the process.
    unsafe { sys::exit(101) }
}

/// Taken from a fixed area, released as a whole after each hive.
#[cfg(feature = "alloc")]
mod heap {
    use core::alloc::{GlobalAlloc, Layout};
    use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    const SIZE: usize = 256 << 20;
    #[repr(align(64))]
    struct Area(core::cell::UnsafeCell<[u8; SIZE]>);
    // SAFETY: one thread.
    unsafe impl Sync for Area {}
    static AREA: Area = Area(core::cell::UnsafeCell::new([0; SIZE]));
    static USED: AtomicUsize = AtomicUsize::new(0);
    struct Bump;
    // SAFETY: hands out disjoint parts of the area.
    unsafe impl GlobalAlloc for Bump {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let at = (USED.load(Relaxed) + l.align() - 1) & !(l.align() - 1);
            match at.checked_add(l.size()) {
                Some(e) if e <= SIZE => {
                    USED.store(e, Relaxed);
                    (AREA.0.get() as *mut u8).add(at)
                }
                _ => core::ptr::null_mut(),
            }
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            let at = p as usize - AREA.0.get() as usize;
            if at + l.size() == USED.load(Relaxed) {
                USED.store(at, Relaxed);
            }
        }
    }
    #[global_allocator]
    static A: Bump = Bump;
    pub fn reset() {
        USED.store(0, Relaxed);
    }
}

// Unoptimised or prebuilt code mentions these; with panic = "abort" none is used.
#[cfg(not(target_arch = "wasm32"))]
mod unwinding {
    #[no_mangle]
    pub extern "C" fn rust_eh_personality() {}
    #[no_mangle]
    #[allow(non_snake_case)]
    pub extern "C" fn _Unwind_Resume() -> ! {
        // SAFETY: ends the process.
        unsafe { super::sys::exit(102) }
    }
}

fn fill(b: &mut [u8]) -> bool {
    let mut n = 0;
    while n < b.len() {
        // SAFETY: reads into b.
        let k = unsafe { sys::read(b[n..].as_mut_ptr(), b.len() - n) };
        if k <= 0 {
            return false;
        }
        n += k as usize;
    }
    true
}

fn hex(v: u64, out: &mut [u8]) {
    for (i, o) in out.iter_mut().enumerate() {
        let d = (v >> (60 - 4 * i)) as u8 & 15;
        *o = if d < 10 { b'0' + d } else { b'a' + d - 10 };
    }
}

#[no_mangle]
pub extern "C" fn hive_main() -> ! {
    // SAFETY: the only thread and the only reference.
    let buf: &mut [u8] = unsafe { &mut *core::ptr::addr_of_mut!(BUF) };
    let mut len = [0u8; 8];
    while fill(&mut len) {
        let n = u64::from_le_bytes(len) as usize;
        if n > MAX || !fill(&mut buf[..n]) {
            // SAFETY: ends the process.
            unsafe { sys::exit(3) };
        }
        let (d, o) = walk::walk(&mut buf[..n], cfg!(feature = "alloc"));
        #[cfg(feature = "alloc")]
        heap::reset();
        let mut line = [b' '; 34];
        hex(d, &mut line[..16]);
        hex(o, &mut line[17..33]);
        line[33] = b'\n';
        // SAFETY: writes a local buffer.
        unsafe { sys::write(1, line.as_ptr(), line.len()) };
    }
    // SAFETY: ends the process.
    unsafe { sys::exit(0) }
}
