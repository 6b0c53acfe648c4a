#![no_std]
#![allow(unused, unused_unsafe)]
include!("../../common.rs");

use cipher::StreamCipherCoreWrapper as Wrap;
use cipher::consts::{U4, U6, U10};
use salsa20::*;

#[cfg(feature = "stream")]
mod stream {
    use super::*;
    stream_keyiv!(s_s8, Salsa8, seek);
    stream_keyiv!(s_s12, Salsa12, seek);
    stream_keyiv!(s_s20, Salsa20, seek);
}
#[cfg(feature = "xstream")]
mod xstream {
    use super::*;
    stream_keyiv!(s_y8, XSalsa8, seek);
    stream_keyiv!(s_y12, XSalsa12, seek);
    stream_keyiv!(s_y20, XSalsa20, seek);
}
#[cfg(feature = "two")]
mod two {
    use super::*;
    two_keyiv!(t_s20, Salsa20);
    two_keyiv!(t_y20, XSalsa20);
    two_keyiv!(t_s20_s8, Salsa20, Salsa8);
    two_keyiv!(t_y12_y20, XSalsa12, XSalsa20);
}
#[cfg(feature = "core")]
mod core_ {
    use super::*;
    core_keyiv!(k_s8, SalsaCore<U4>, op_core_seek);
    core_keyiv!(k_s12, SalsaCore<U6>, op_core_seek);
    core_keyiv!(k_s20, SalsaCore<U10>, op_core_seek);
    core_keyiv!(k_y8, XSalsaCore<U4>, op_core_seek);
    core_keyiv!(k_y12, XSalsaCore<U6>, op_core_seek);
    core_keyiv!(k_y20, XSalsaCore<U10>, op_core_seek);
}
#[cfg(feature = "raw")]
mod raw {
    use super::*;
    macro_rules! rawf {
        ($name:ident, $t:ty) => {
            #[unsafe(no_mangle)]
            pub unsafe extern "C" fn $name(st: &[u32; 16], ops: *const u64, n: usize, outs: *mut u64,
                buf: *mut u8, inp: *const u8) -> u64 {
                let io = Io { buf, inp };
                let mut c = Some(SalsaCore::<$t>::from_raw_state(*st));
                prog!(c, ops, n, outs, io, op, |code, a, b| unsafe { op_core_seek(&mut c, io, code, a, b) });
                OK
            }
        };
    }
    rawf!(w_s8, U4);
    rawf!(w_s12, U6);
    rawf!(w_s20, U10);
}
#[cfg(feature = "hsalsa")]
mod h {
    use super::*;
    macro_rules! hch {
        ($n:ident, $r:ty) => {
            #[unsafe(no_mangle)]
            pub unsafe extern "C" fn $n(key: &[u8; 32], inp: &[u8; 16], out: &mut [u8; 32]) {
                let r = hsalsa::<$r>(key.into(), inp.into());
                out.copy_from_slice(&r);
            }
        };
    }
    hch!(h_8, U4);
    hch!(h_12, U6);
    hch!(h_20, U10);
}
#[cfg(feature = "drop")]
mod dropp {
    use super::*;
    macro_rules! d {
        ($n:ident, $t:ty, $il:expr) => {
            drop_probe!($n, $t, |key, iv| <$t as cipher::KeyIvInit>::new_from_slices(
                core::slice::from_raw_parts(key, 32), core::slice::from_raw_parts(iv, $il)).ok().unwrap(),
                |c, io, code, a, b| if code < 20 { op_stream(c, io, code, a, b) } else { op_seek(c, code, a, b) });
        };
    }
    d!(d_s8, Salsa8, 8);
    d!(d_s12, Salsa12, 8);
    d!(d_s20, Salsa20, 8);
    d!(d_y8, XSalsa8, 24);
    d!(d_y12, XSalsa12, 24);
    d!(d_y20, XSalsa20, 24);
    macro_rules! dk {
        ($n:ident, $t:ty, $il:expr) => {
            drop_probe!($n, $t, |key, iv| <$t as cipher::KeyIvInit>::new_from_slices(
                core::slice::from_raw_parts(key, 32), core::slice::from_raw_parts(iv, $il)).ok().unwrap(),
                |c, io, code, a, b| {
                    let _ = io;
                    if code == 41 { cipher::StreamCipherSeekCore::set_block_pos(c, a) }
                    if code == 44 {
                        let o = io.out(a, b * 64);
                        let (blocks, _) = cipher::Array::<u8, cipher::consts::U64>::slice_as_chunks_mut(o);
                        cipher::StreamCipherCore::write_keystream_blocks(c, blocks);
                    }
                    [OK, 0]
                });
        };
    }
    dk!(e_s20, SalsaCore<U10>, 8);
    dk!(e_y20, XSalsaCore<U10>, 24);
}
