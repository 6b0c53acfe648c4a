#![no_std]
#![allow(unused, unused_unsafe)]
include!("../../common.rs");
use ::rabbit::*;

#[cfg(feature = "stream")]
mod stream {
    use super::*;
    stream_keyiv!(s_rabbit, Rabbit, noseek);
    stream_key!(s_rabbitk, RabbitKeyOnly);
}
#[cfg(feature = "two")]
mod two {
    use super::*;
    two_keyiv!(t_rabbit, Rabbit);
}
#[cfg(feature = "core")]
mod core_ {
    use super::*;
    core_keyiv!(k_rabbit, RabbitCore, op_core_noseek);
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn k_rabbitk(key: *const u8, kl: usize,
        ops: *const u64, n: usize, outs: *mut u64, buf: *mut u8, inp: *const u8) -> u64 {
        let io = Io { buf, inp };
        let Ok(c) = (unsafe {
            <RabbitKeyOnlyCore as cipher::KeyInit>::new_from_slice(core::slice::from_raw_parts(key, kl))
        }) else { return ERR };
        let mut c = Some(c);
        prog!(c, ops, n, outs, io, op, |code, a, b| unsafe { op_core_noseek(&mut c, io, code, a, b) });
        OK
    }
    // InnerIvInit
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn k_rabbiti(key: *const u8, kl: usize, iv: *const u8, il: usize,
        ops: *const u64, n: usize, outs: *mut u64, buf: *mut u8, inp: *const u8) -> u64 {
        let io = Io { buf, inp };
        let Ok(c) = (unsafe {
            <RabbitKeyOnlyCore as cipher::KeyInit>::new_from_slice(core::slice::from_raw_parts(key, kl))
        }) else { return ERR };
        let Ok(c) = (unsafe {
            <RabbitCore as cipher::InnerIvInit>::inner_iv_slice_init(c, core::slice::from_raw_parts(iv, il))
        }) else { return ERR };
        let mut c = Some(c);
        prog!(c, ops, n, outs, io, op, |code, a, b| unsafe { op_core_noseek(&mut c, io, code, a, b) });
        OK
    }
}
#[cfg(feature = "drop")]
mod dropp {
    use super::*;
    drop_probe!(d_rabbit, Rabbit, |key, iv| <Rabbit as cipher::KeyIvInit>::new_from_slices(core::slice::from_raw_parts(key, 16),
        core::slice::from_raw_parts(iv, 8)).ok().unwrap(), |c, io, code, a, b| op_stream(c, io, code, a, b));
    drop_probe!(d_rabbitk, RabbitKeyOnly, |key, _iv| <RabbitKeyOnly as cipher::KeyInit>::new_from_slice(
        core::slice::from_raw_parts(key, 16)).ok().unwrap(), |c, io, code, a, b| op_stream(c, io, code, a, b));
}
