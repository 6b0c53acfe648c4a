#![no_std]
#![allow(unused, unused_unsafe)]
include!("../../common.rs");
use ::rc4::Rc4;

#[cfg(feature = "stream")]
mod stream {
    use super::*;
    stream_key!(s_rc4, Rc4);
    // the fixed-size constructor
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn n_rc4(key: &[u8; 32], ops: *const u64, n: usize, outs: *mut u64,
        buf: *mut u8, inp: *const u8) -> u64 {
        let io = Io { buf, inp };
        let mut c = <Rc4 as cipher::KeyInit>::new(key.into());
        prog!(c, ops, n, outs, io, op, |code, a, b| unsafe { op_stream(&mut c, io, code, a, b) });
        OK
    }
}
#[cfg(feature = "two")]
mod two {
    use super::*;
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn t_rc4(key: *const u8, kl: usize, kl2: usize, ops: *const u64, n: usize, outs: *mut u64,
        buf: *mut u8, inp: *const u8) -> u64 {
        let io = Io { buf, inp };
        unsafe {
            let Ok(mut c) = <Rc4 as cipher::KeyInit>::new_from_slice(core::slice::from_raw_parts(key, kl)) else { return ERR };
            let Ok(mut d) = <Rc4 as cipher::KeyInit>::new_from_slice(core::slice::from_raw_parts(key.add(kl), kl2)) else { return ERR };
            prog!(c, ops, n, outs, io, op, |code, a, b| {
                let x = if code & 256 == 0 { &mut c } else { &mut d };
                op_stream(x, io, code & 255, a, b)
            });
        }
        OK
    }
}
#[cfg(feature = "drop")]
mod dropp {
    use super::*;
    drop_probe!(d_rc4, Rc4, |key, _iv| <Rc4 as cipher::KeyInit>::new_from_slice(core::slice::from_raw_parts(key, 32)).ok().unwrap(),
        |c, io, code, a, b| op_stream(c, io, code, a, b));
}
