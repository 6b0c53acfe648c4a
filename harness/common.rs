// Shared by the harness crates through include!.
//
// The harness only calls the public API.  A call runs a short program: `ops`
// points to `n` triples (code, a, b) of u64; each writes two u64 to `outs`.
// The checks keep the codes concrete and make the operands symbolic.

unsafe extern "C" {
    fn verif_panic() -> !;
}

#[cfg(not(feature = "native"))]
#[panic_handler]
fn on_panic(_: &core::panic::PanicInfo<'_>) -> ! {
    unsafe { verif_panic() }
}

#[cfg(feature = "native")]
#[panic_handler]
fn on_panic(_: &core::panic::PanicInfo<'_>) -> ! {
    unsafe { verif_panic() }
}

#[derive(Clone, Copy)]
pub struct Io {
    pub buf: *mut u8,
    pub inp: *const u8,
}

impl Io {
    unsafe fn out<'a>(&self, off: u64, n: u64) -> &'a mut [u8] {
        unsafe { core::slice::from_raw_parts_mut(self.buf.add(off as usize), n as usize) }
    }
    unsafe fn inp<'a>(&self, off: u64, n: u64) -> &'a [u8] {
        unsafe { core::slice::from_raw_parts(self.inp.add(off as usize), n as usize) }
    }
}

pub const OK: u64 = 1;
pub const ERR: u64 = 2;

fn st<T, E>(r: Result<T, E>) -> u64 {
    match r {
        Ok(_) => OK,
        Err(_) => ERR,
    }
}

use cipher::{InOutBuf, StreamCipher, StreamCipherSeek};

/// operations every stream cipher offers; operand a = offset | length << 32
#[inline(never)]
pub unsafe fn op_stream<C: StreamCipher>(c: &mut C, io: Io, code: u64, a: u64, b: u64) -> [u64; 2] {
    unsafe {
        match code {
            0 => {
                c.apply_keystream(io.out(a, b));
                [OK, 0]
            }
            1 => [st(c.try_apply_keystream(io.out(a, b))), 0],
            // a = out offset | in offset << 32
            2 => {
                c.apply_keystream_b2b(io.inp(a >> 32, b), io.out(a & 0xffff_ffff, b));
                [OK, 0]
            }
            3 => [
                st(c.try_apply_keystream_b2b(io.inp(a >> 32, b), io.out(a & 0xffff_ffff, b))),
                0,
            ],
            4 => {
                c.write_keystream(io.out(a, b));
                [OK, 0]
            }
            5 => [st(c.try_write_keystream(io.out(a, b))), 0],
            6 => [st(c.check_remaining(b as usize)), 0],
            7 => {
                let d = io.out(a & 0xffff_ffff, b);
                let s = io.inp(a >> 32, b);
                c.apply_keystream_inout(InOutBuf::new(s, d).unwrap());
                [OK, 0]
            }
            8 => {
                let d = io.out(a & 0xffff_ffff, b);
                let s = io.inp(a >> 32, b);
                [st(c.try_apply_keystream_inout(InOutBuf::new(s, d).unwrap())), 0]
            }
            // mismatched lengths: must be rejected without touching anything
            9 => [
                st(c.try_apply_keystream_b2b(io.inp(0, a >> 32), io.out(a & 0xffff_ffff, b))),
                0,
            ],
            10 => {
                c.apply_keystream_inout(InOutBuf::from(io.out(a, b)));
                [OK, 0]
            }
            _ => [0, 0],
        }
    }
}

#[inline(never)]
pub unsafe fn op_seek<C: StreamCipherSeek>(c: &mut C, code: u64, a: u64, b: u64) -> [u64; 2] {
    match code {
        20 => [st(c.try_seek(a)), 0],
        21 => [st(c.try_seek(a as u32)), 0],
        22 => [st(c.try_seek((b as u128) << 64 | a as u128)), 0],
        23 => [st(c.try_seek(a as usize)), 0],
        24 => match c.try_current_pos::<u64>() {
            Ok(p) => [OK, p],
            Err(_) => [ERR, 0],
        },
        25 => match c.try_current_pos::<u128>() {
            Ok(p) => [p as u64, (p >> 64) as u64],
            Err(_) => [!0, !0],
        },
        26 => match c.try_current_pos::<u32>() {
            Ok(p) => [OK, p as u64],
            Err(_) => [ERR, 0],
        },
        27 => {
            c.seek(a);
            [OK, 0]
        }
        28 => [c.current_pos::<u64>(), 0],
        29 => [st(c.try_seek(a as i32)), 0],
        _ => [0, 0],
    }
}

macro_rules! prog {
    ($c:ident, $ops:ident, $n:ident, $outs:ident, $io:ident, $op:ident, |$code:ident, $a:ident, $b:ident| $e:expr) => {{
        let mut k = 0;
        while k < $n {
            let $code = unsafe { *$ops.add(3 * k) };
            let $a = unsafe { *$ops.add(3 * k + 1) };
            let $b = unsafe { *$ops.add(3 * k + 2) };
            let r: [u64; 2] = $e;
            unsafe {
                *$outs.add(2 * k) = r[0];
                *$outs.add(2 * k + 1) = r[1];
            }
            k += 1;
        }
    }};
}

/// byte-level programs on a KeyIvInit cipher (wrapper level)
#[allow(unused_macros)]
macro_rules! stream_keyiv {
    ($name:ident, $ty:ty, seek) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name(key: *const u8, kl: usize, iv: *const u8, il: usize,
            ops: *const u64, n: usize, outs: *mut u64, buf: *mut u8, inp: *const u8) -> u64 {
            let io = Io { buf, inp };
            let Ok(mut c) = (unsafe {
                <$ty as cipher::KeyIvInit>::new_from_slices(
                    core::slice::from_raw_parts(key, kl), core::slice::from_raw_parts(iv, il))
            }) else { return ERR };
            prog!(c, ops, n, outs, io, op, |code, a, b| unsafe {
                if code < 20 { op_stream(&mut c, io, code, a, b) } else { op_seek(&mut c, code, a, b) }
            });
            OK
        }
    };
    ($name:ident, $ty:ty, noseek) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name(key: *const u8, kl: usize, iv: *const u8, il: usize,
            ops: *const u64, n: usize, outs: *mut u64, buf: *mut u8, inp: *const u8) -> u64 {
            let io = Io { buf, inp };
            let Ok(mut c) = (unsafe {
                <$ty as cipher::KeyIvInit>::new_from_slices(
                    core::slice::from_raw_parts(key, kl), core::slice::from_raw_parts(iv, il))
            }) else { return ERR };
            prog!(c, ops, n, outs, io, op, |code, a, b| unsafe { op_stream(&mut c, io, code, a, b) });
            OK
        }
    };
}

#[allow(unused_macros)]
macro_rules! stream_key {
    ($name:ident, $ty:ty) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name(key: *const u8, kl: usize,
            ops: *const u64, n: usize, outs: *mut u64, buf: *mut u8, inp: *const u8) -> u64 {
            let io = Io { buf, inp };
            let Ok(mut c) = (unsafe {
                <$ty as cipher::KeyInit>::new_from_slice(core::slice::from_raw_parts(key, kl))
            }) else { return ERR };
            prog!(c, ops, n, outs, io, op, |code, a, b| unsafe { op_stream(&mut c, io, code, a, b) });
            OK
        }
    };
}

/// two independent instances, instance selected by bit 8 of the code
#[allow(unused_macros)]
macro_rules! two_keyiv {
    ($name:ident, $ty:ty) => { two_keyiv!($name, $ty, $ty); };
    ($name:ident, $ty:ty, $ty2:ty) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name(key: *const u8, kl: usize, iv: *const u8, il: usize,
            ops: *const u64, n: usize, outs: *mut u64, buf: *mut u8, inp: *const u8) -> u64 {
            let io = Io { buf, inp };
            unsafe {
                let Ok(mut c) = <$ty as cipher::KeyIvInit>::new_from_slices(
                    core::slice::from_raw_parts(key, kl), core::slice::from_raw_parts(iv, il)) else { return ERR };
                let Ok(mut d) = <$ty2 as cipher::KeyIvInit>::new_from_slices(
                    core::slice::from_raw_parts(key.add(kl), kl), core::slice::from_raw_parts(iv.add(il), il)) else { return ERR };
                prog!(c, ops, n, outs, io, op, |code, a, b| {
                    if code & 256 == 0 { op_stream(&mut c, io, code, a, b) }
                    else { op_stream(&mut d, io, code & 255, a, b) }
                });
            }
            OK
        }
    };
}

/// block-level programs on a StreamCipherCore
#[allow(unused_macros)]
macro_rules! op_core_fn {
    ($fn:ident, [$($bound:tt)*], |$c:ident, $a:ident| $pos:expr, $setpos:expr) => {
        #[inline(never)]
        pub unsafe fn $fn<C: $($bound)*>(slot: &mut Option<C>, io: Io, code: u64, a: u64, b: u64) -> [u64; 2]
        {
            use cipher::typenum::Unsigned;
            let bs = C::BlockSize::U64;
            let Some($c) = slot.as_mut() else { return [0, 0] };
            unsafe {
                match code {
                    41 => { let $a = a; $setpos; [OK, 0] }
                    40 => [OK, $pos],
                    42 => match $c.remaining_blocks() {
                        Some(n) => [OK, n as u64],
                        None => [ERR, 0],
                    },
                    43 => {
                        let mut k = cipher::Block::<C>::default();
                        $c.write_keystream_block(&mut k);
                        io.out(a, bs).copy_from_slice(&k);
                        [OK, 0]
                    }
                    44 => {
                        let o = io.out(a, b * bs);
                        let (blocks, _) = cipher::Array::<u8, C::BlockSize>::slice_as_chunks_mut(o);
                        $c.write_keystream_blocks(blocks);
                        [OK, 0]
                    }
                    45 => {
                        let o = io.out(a, b * bs);
                        let (blocks, _) = cipher::Array::<u8, C::BlockSize>::slice_as_chunks_mut(o);
                        $c.apply_keystream_blocks(blocks);
                        [OK, 0]
                    }
                    46 => {
                        let o = io.out(a & 0xffff_ffff, b * bs);
                        let i = io.inp(a >> 32, b * bs);
                        let (o, _) = cipher::Array::<u8, C::BlockSize>::slice_as_chunks_mut(o);
                        let (i, _) = cipher::Array::<u8, C::BlockSize>::slice_as_chunks(i);
                        $c.apply_keystream_blocks_inout(InOutBuf::new(i, o).unwrap());
                        [OK, 0]
                    }
                    47 => {
                        let o = io.out(a & 0xffff_ffff, bs);
                        let i = io.inp(a >> 32, bs);
                        let (o, _) = cipher::Array::<u8, C::BlockSize>::slice_as_chunks_mut(o);
                        let (i, _) = cipher::Array::<u8, C::BlockSize>::slice_as_chunks(i);
                        $c.apply_keystream_block_inout((&i[0], &mut o[0]).into());
                        [OK, 0]
                    }
                    48 => {
                        let o = io.out(a & 0xffff_ffff, b);
                        let i = io.inp(a >> 32, b);
                        let x = slot.take().unwrap();
                        [st(x.try_apply_keystream_partial(InOutBuf::new(i, o).unwrap())), 0]
                    }
                    49 => {
                        let x = slot.take().unwrap();
                        x.apply_keystream_partial(InOutBuf::from(io.out(a, b)));
                        [OK, 0]
                    }
                    _ => [0, 0],
                }
            }
        }
    };
}

op_core_fn!(op_core_seek, [cipher::StreamCipherSeekCore], |c, a|
    { c.get_block_pos().try_into().unwrap_or(u64::MAX) },
    { if let Ok(p) = a.try_into() { c.set_block_pos(p) } });
op_core_fn!(op_core_noseek, [cipher::StreamCipherCore], |c, a| { let _ = &c; 0 }, { let _ = (a, &c); });

#[allow(unused_macros)]
macro_rules! core_keyiv {
    ($name:ident, $ty:ty, $op:ident) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name(key: *const u8, kl: usize, iv: *const u8, il: usize,
            ops: *const u64, n: usize, outs: *mut u64, buf: *mut u8, inp: *const u8) -> u64 {
            let io = Io { buf, inp };
            let Ok(c) = (unsafe {
                <$ty as cipher::KeyIvInit>::new_from_slices(
                    core::slice::from_raw_parts(key, kl), core::slice::from_raw_parts(iv, il))
            }) else { return ERR };
            let mut c = Some(c);
            prog!(c, ops, n, outs, io, op, |code, a, b| unsafe { $op(&mut c, io, code, a, b) });
            OK
        }
    };
}

/// builds a value in `mem`, runs a program, drops it in place; returns its size.
/// `snap` receives the bytes of the object just before the drop.
#[allow(unused_macros)]
macro_rules! drop_probe {
    ($name:ident, $ty:ty, |$key:ident, $iv:ident| $mk:expr, |$c:ident, $io:ident, $code:ident, $a:ident, $b:ident| $op:expr) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name($key: *const u8, $iv: *const u8, ops: *const u64, n: usize,
            outs: *mut u64, buf: *mut u8, inp: *const u8, mem: *mut u8, snap: *mut u8) -> u64 {
            let $io = Io { buf, inp };
            unsafe {
                let p = mem as *mut $ty;
                p.write($mk);
                {
                    let $c = &mut *p;
                    prog!(c, ops, n, outs, io, op, |$code, $a, $b| $op);
                }
                let sz = core::mem::size_of::<$ty>();
                core::ptr::copy_nonoverlapping(mem, snap, sz);
                core::ptr::drop_in_place(p);
                sz as u64
            }
        }
    };
}

/// writes the Debug form of a value
pub struct W {
    pub p: *mut u8,
    pub n: usize,
    pub cap: usize,
}

impl core::fmt::Write for W {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for b in s.bytes() {
            if self.n < self.cap {
                unsafe { *self.p.add(self.n) = b };
            }
            self.n += 1;
        }
        Ok(())
    }
}

#[allow(unused_macros)]
macro_rules! debug_probe {
    ($name:ident, |$key:ident, $iv:ident, $io:ident, $pos:ident, $pos2:ident| $mk:expr) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name($key: *const u8, $iv: *const u8, $pos: u64, $pos2: u64,
            buf: *mut u8, inp: *const u8, alt: usize, out: *mut u8, cap: usize) -> u64 {
            use core::fmt::Write;
            let $io = Io { buf, inp };
            let mut w = W { p: out, n: 0, cap };
            let x = unsafe { $mk };
            let r = if alt == 0 { write!(w, "{:?}", x) } else { write!(w, "{:#?}", x) };
            if r.is_err() { return !0 }
            w.n as u64
        }
    };
}
