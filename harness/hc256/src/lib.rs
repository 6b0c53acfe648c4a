#![no_std]
#![allow(unused, unused_unsafe)]
include!("../../common.rs");
use hc_256::*;

#[cfg(feature = "stream")]
mod stream {
    use super::*;
    stream_keyiv!(s_hc, Hc256, noseek);
}
#[cfg(feature = "two")]
mod two {
    use super::*;
    two_keyiv!(t_hc, Hc256);
}
#[cfg(feature = "core")]
mod core_ {
    use super::*;
    core_keyiv!(k_hc, Hc256Core, op_core_noseek);
}
#[cfg(feature = "drop")]
mod dropp {
    use super::*;
    drop_probe!(d_hc, Hc256, |key, iv| <Hc256 as cipher::KeyIvInit>::new_from_slices(core::slice::from_raw_parts(key, 32),
        core::slice::from_raw_parts(iv, 32)).ok().unwrap(), |c, io, code, a, b| op_stream(c, io, code, a, b));
}
#[cfg(feature = "debug")]
mod dbg {
    use super::*;
    debug_probe!(p_hc, |key, iv, io, pos, pos2| {
        let mut c = <Hc256 as cipher::KeyIvInit>::new_from_slices(core::slice::from_raw_parts(key, 32),
            core::slice::from_raw_parts(iv, 32)).ok().unwrap();
        let _ = pos;
        c.apply_keystream(io.out(0, pos2));
        c
    });
    debug_probe!(p_khc, |key, iv, io, pos, pos2| {
        let _ = (io, pos, pos2);
        <Hc256Core as cipher::KeyIvInit>::new_from_slices(core::slice::from_raw_parts(key, 32),
            core::slice::from_raw_parts(iv, 32)).ok().unwrap()
    });
}
