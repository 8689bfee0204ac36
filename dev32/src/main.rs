//! The 32-bit device: a freestanding static i686 program. Reads an encoded history from standard input,
//! executes it, writes one word per step. Exit code 0 done, 101 panic, 3 input too long.
#![no_std]
#![no_main]
mod device;

core::arch::global_asm!(
    ".globl _start",
    "_start:",
    "xor ebp, ebp",
    "and esp, -16",
    "call device_main",
    "ud2",
    // sys(n, a, b, c), C calling convention
    ".globl sys",
    "sys:",
    "push ebx",
    "mov eax, [esp+8]",
    "mov ebx, [esp+12]",
    "mov ecx, [esp+16]",
    "mov edx, [esp+20]",
    "int 0x80",
    "pop ebx",
    "ret",
);
extern "C" {
    fn sys(n: u32, a: u32, b: u32, c: u32) -> i32;
}
fn exit(code: u32) -> ! {
    loop {
        unsafe { sys(1, code, 0, 0) };
    }
}
#[panic_handler]
fn panicked(_: &core::panic::PanicInfo) -> ! {
    exit(101)
}

const MAX: usize = 4096;
static mut INPUT: [u32; MAX] = [0; MAX];
static mut OUTPUT: [u32; MAX] = [0; MAX];
static mut RAM: [u32; device::RAM_CELLS] = [0; device::RAM_CELLS];

#[no_mangle]
extern "C" fn device_main() -> ! {
    unsafe {
        let input = &mut *core::ptr::addr_of_mut!(INPUT);
        let output = &mut *core::ptr::addr_of_mut!(OUTPUT);
        let mut got = 0usize;
        loop {
            let n = sys(3, 0, input.as_mut_ptr() as u32 + got as u32, (4 * MAX - got) as u32);
            if n <= 0 {
                break;
            }
            got += n as usize;
        }
        if got == 4 * MAX {
            exit(3);
        }
        let mut k = 0;
        device::run(&input[..got / 4], core::ptr::addr_of_mut!(RAM) as *mut u32, &mut |w| {
            output[k] = w;
            k += 1;
        });
        let mut put = 0usize;
        while put < 4 * k {
            let n = sys(4, 1, output.as_ptr() as u32 + put as u32, (4 * k - put) as u32);
            if n <= 0 {
                exit(3);
            }
            put += n as usize;
        }
        exit(0)
    }
}
