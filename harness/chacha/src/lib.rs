#![no_std]
#![allow(unused, unused_unsafe)]
include!("../../common.rs");

#[allow(unused_imports)]
use chacha20::variants::*;
use chacha20::*;
use cipher::StreamCipherCoreWrapper as Wrap;


#[cfg(feature = "stream")]
mod stream {
    use super::*;
    stream_keyiv!(s_c8, ChaCha8, seek);
    stream_keyiv!(s_c12, ChaCha12, seek);
    stream_keyiv!(s_c20, ChaCha20, seek);
}
#[cfg(feature = "two")]
mod two {
    use super::*;
    two_keyiv!(t_c20, ChaCha20);
    two_keyiv!(t_l20, ChaCha20Legacy);
    two_keyiv!(t_x20, XChaCha20);
    two_keyiv!(t_c8_c20, ChaCha8, ChaCha20);
    two_keyiv!(t_x8_x20, XChaCha8, XChaCha20);
    two_keyiv!(t_x20_x12, XChaCha20, XChaCha12);
}
#[cfg(feature = "core")]
mod core_ {
    use super::*;
    core_keyiv!(k_c8, ChaChaCore<R8, Ietf>, op_core_seek);
    core_keyiv!(k_c12, ChaChaCore<R12, Ietf>, op_core_seek);
    core_keyiv!(k_c20, ChaChaCore<R20, Ietf>, op_core_seek);
}
#[cfg(feature = "lstream")]
mod lstream {
    use super::*;
    stream_keyiv!(s_l20, ChaCha20Legacy, seek);
}
#[cfg(feature = "lcore")]
mod lcore {
    use super::*;
    core_keyiv!(k_l20, ChaCha20LegacyCore, op_core_seek);
}
#[cfg(feature = "xstream")]
mod xstream {
    use super::*;
    stream_keyiv!(s_x8, XChaCha8, seek);
    stream_keyiv!(s_x12, XChaCha12, seek);
    stream_keyiv!(s_x20, XChaCha20, seek);
}
#[cfg(feature = "hchacha")]
mod h {
    use super::*;
    macro_rules! hch {
        ($n:ident, $r:ty) => {
            #[unsafe(no_mangle)]
            pub unsafe extern "C" fn $n(key: &[u8; 32], inp: &[u8; 16], out: &mut [u8; 32]) {
                let r = hchacha::<$r>(key.into(), inp.into());
                out.copy_from_slice(&r);
            }
        };
    }
    hch!(h_8, R8);
    hch!(h_12, R12);
    hch!(h_20, R20);
}

#[cfg(feature = "rng")]
mod rng {
    use super::*;
    use rand_core::{Rng, SeedableRng, TryRng, block::Generator};

    pub trait R: Rng + SeedableRng<Seed = [u8; 32]> + PartialEq {
        fn gwp(&self) -> u128;
        fn swp(&mut self, p: u128);
        fn gbp(&self) -> u64;
        fn sbp(&mut self, p: u64);
        fn gs(&self) -> u64;
        fn ss(&mut self, s: u64);
        fn seed(&self) -> [u8; 32];
        fn ser(&self) -> [u8; 49];
        fn de(s: &[u8; 49]) -> Self;
    }
    macro_rules! imp {
        ($t:ty) => {
            impl R for $t {
                fn gwp(&self) -> u128 { self.get_word_pos() }
                fn swp(&mut self, p: u128) { self.set_word_pos(p) }
                fn gbp(&self) -> u64 { self.get_block_pos() }
                fn sbp(&mut self, p: u64) { self.set_block_pos(p) }
                fn gs(&self) -> u64 { self.get_stream() }
                fn ss(&mut self, s: u64) { self.set_stream(s) }
                fn seed(&self) -> [u8; 32] { self.get_seed() }
                fn ser(&self) -> [u8; 49] { self.serialize_state() }
                fn de(s: &[u8; 49]) -> Self { Self::deserialize_state(s) }
            }
        };
    }
    imp!(ChaCha8Rng);
    imp!(ChaCha12Rng);
    imp!(ChaCha20Rng);

    #[inline(never)]
    pub unsafe fn op<T: R>(x: &mut T, y: &mut T, io: Io, code: u64, a: u64, b: u64) -> [u64; 2] {
        unsafe {
            match code {
                0 => [x.next_u32() as u64, 0],
                1 => [x.next_u64(), 0],
                2 => {
                    x.fill_bytes(io.out(a, b));
                    [OK, 0]
                }
                3 => {
                    let p = x.gwp();
                    [p as u64, (p >> 64) as u64]
                }
                4 => {
                    x.swp((b as u128) << 64 | a as u128);
                    [OK, 0]
                }
                5 => [x.gbp(), 0],
                6 => {
                    x.sbp(a);
                    [OK, 0]
                }
                7 => [x.gs(), 0],
                8 => {
                    x.ss(a);
                    [OK, 0]
                }
                9 => {
                    io.out(a, 32).copy_from_slice(&x.seed());
                    [OK, 0]
                }
                10 => {
                    io.out(a, 49).copy_from_slice(&x.ser());
                    [OK, 0]
                }
                11 => {
                    *x = T::de(io.inp(a, 49).try_into().unwrap());
                    [OK, 0]
                }
                // through serialization into the other instance
                12 => {
                    let s = x.ser();
                    *y = T::de(&s);
                    [OK, 0]
                }
                13 => [(*x == *y) as u64, (*x != *y) as u64],
                14 => {
                    *x = T::from_seed(io.inp(a, 32).try_into().unwrap());
                    [OK, 0]
                }
                // many words at once: b words, xor-free copies into buf
                15 => {
                    let mut i = 0;
                    while i < b {
                        let w = x.next_u32().to_le_bytes();
                        io.out(a + 4 * i, 4).copy_from_slice(&w);
                        i += 1;
                    }
                    [OK, 0]
                }
                16 => {
                    let mut i = 0;
                    while i < b {
                        let w = x.next_u64().to_le_bytes();
                        io.out(a + 8 * i, 8).copy_from_slice(&w);
                        i += 1;
                    }
                    [OK, 0]
                }
                17 => match x.try_next_u32() {
                    Ok(v) => [v as u64, OK],
                    Err(_) => [0, ERR],
                },
                18 => match x.try_next_u64() {
                    Ok(v) => [v, OK],
                    Err(_) => [0, ERR],
                },
                19 => [st(x.try_fill_bytes(io.out(a, b))), 0],
                _ => [0, 0],
            }
        }
    }

    macro_rules! rngf {
        ($n:ident, $t:ty) => {
            #[unsafe(no_mangle)]
            pub unsafe extern "C" fn $n(seeds: *const u8, ops: *const u64, n: usize, outs: *mut u64,
                buf: *mut u8, inp: *const u8) -> u64 {
                let io = Io { buf, inp };
                let s = unsafe { core::slice::from_raw_parts(seeds, 64) };
                let mut x = <$t>::from_seed(s[..32].try_into().unwrap());
                let mut y = <$t>::from_seed(s[32..].try_into().unwrap());
                prog!(x, ops, n, outs, io, op, |code, a, b| unsafe {
                    if code & 256 == 0 { op(&mut x, &mut y, io, code, a, b) }
                    else { op(&mut y, &mut x, io, code & 255, a, b) }
                });
                OK
            }
        };
    }
    rngf!(r_8, ChaCha8Rng);
    rngf!(r_12, ChaCha12Rng);
    rngf!(r_20, ChaCha20Rng);

    // the block generator itself
    macro_rules! gen_f {
        ($n:ident, $r:ty, $v:ty, |$c:ident, $p:ident| $set:expr, $get:expr) => {
            #[unsafe(no_mangle)]
            pub unsafe extern "C" fn $n(seed: &[u8; 32], $p: u64, calls: usize, out: *mut [u32; 64]) -> u64 {
                let mut $c = <ChaChaCore<$r, $v> as SeedableRng>::from_seed(*seed);
                $set;
                let mut i = 0;
                while i < calls {
                    $c.generate(unsafe { &mut *out.add(i) });
                    i += 1;
                }
                $get
            }
        };
    }
    gen_f!(g_l8, R8, Legacy, |c, p| c.set_block_pos(p), c.get_block_pos());
    gen_f!(g_l12, R12, Legacy, |c, p| c.set_block_pos(p), c.get_block_pos());
    gen_f!(g_l20, R20, Legacy, |c, p| c.set_block_pos(p), c.get_block_pos());
    gen_f!(g_c8, R8, Ietf, |c, p| c.set_block_pos(p as u32), c.get_block_pos() as u64);
    gen_f!(g_c20, R20, Ietf, |c, p| c.set_block_pos(p as u32), c.get_block_pos() as u64);
}

#[cfg(feature = "drop")]
mod dropp {
    use super::*;
    macro_rules! d {
        ($n:ident, $t:ty, $kl:expr, $il:expr) => {
            drop_probe!($n, $t, |key, iv| <$t as cipher::KeyIvInit>::new_from_slices(
                core::slice::from_raw_parts(key, $kl), core::slice::from_raw_parts(iv, $il)).ok().unwrap(),
                |c, io, code, a, b| if code < 20 { op_stream(c, io, code, a, b) } else { op_seek(c, code, a, b) });
        };
    }
    d!(d_c8, ChaCha8, 32, 12);
    d!(d_c12, ChaCha12, 32, 12);
    d!(d_c20, ChaCha20, 32, 12);
    d!(d_l20, ChaCha20Legacy, 32, 8);
    d!(d_x8, XChaCha8, 32, 24);
    d!(d_x12, XChaCha12, 32, 24);
    d!(d_x20, XChaCha20, 32, 24);
    macro_rules! dk {
        ($n:ident, $t:ty, $il:expr) => {
            drop_probe!($n, $t, |key, iv| <$t as cipher::KeyIvInit>::new_from_slices(
                core::slice::from_raw_parts(key, 32), core::slice::from_raw_parts(iv, $il)).ok().unwrap(),
                |c, io, code, a, b| {
                    let _ = io;
                    match code {
                        41 => { if let Ok(p) = a.try_into() { c.set_block_pos(p) } [OK, 0] }
                        44 => {
                            let o = io.out(a, b * 64);
                            let (blocks, _) = cipher::Array::<u8, cipher::consts::U64>::slice_as_chunks_mut(o);
                            cipher::StreamCipherCore::write_keystream_blocks(c, blocks);
                            [OK, 0]
                        }
                        _ => [0, 0],
                    }
                });
        };
    }
    dk!(e_c20, ChaChaCore<R20, Ietf>, 12);
    dk!(e_l20, ChaCha20LegacyCore, 8);
    #[cfg(feature = "rng")]
    mod r {
        use super::*;
        use rand_core::{SeedableRng, Rng};
        macro_rules! dr {
            ($n:ident, $t:ty) => {
                drop_probe!($n, $t, |key, _iv| <$t>::from_seed(core::slice::from_raw_parts(key, 32).try_into().unwrap()),
                    |c, io, code, a, b| match code {
                        0 => [c.next_u32() as u64, 0],
                        1 => [c.next_u64(), 0],
                        2 => { c.fill_bytes(io.out(a, b)); [OK, 0] }
                        4 => { c.set_word_pos((b as u128) << 64 | a as u128); [OK, 0] }
                        8 => { c.set_stream(a); [OK, 0] }
                        _ => [0, 0],
                    });
            };
        }
        dr!(d_r8, ChaCha8Rng);
        dr!(d_r12, ChaCha12Rng);
        dr!(d_r20, ChaCha20Rng);
    }
}

#[cfg(feature = "debug")]
mod dbg {
    use super::*;
    use rand_core::{SeedableRng, Rng};
    macro_rules! d {
        ($n:ident, $t:ty, $il:expr) => {
            debug_probe!($n, |key, iv, io, pos, pos2| {
                let mut c = <$t as cipher::KeyIvInit>::new_from_slices(
                    core::slice::from_raw_parts(key, 32), core::slice::from_raw_parts(iv, $il)).ok().unwrap();
                c.try_seek(pos).ok();
                c.try_apply_keystream(io.out(0, pos2)).ok();
                c
            });
        };
    }
    d!(p_c8, ChaCha8, 12);
    d!(p_c12, ChaCha12, 12);
    d!(p_c20, ChaCha20, 12);
    d!(p_l20, ChaCha20Legacy, 8);
    d!(p_x8, XChaCha8, 24);
    d!(p_x12, XChaCha12, 24);
    d!(p_x20, XChaCha20, 24);
    macro_rules! dk {
        ($n:ident, $t:ty, $il:expr) => {
            debug_probe!($n, |key, iv, io, pos, pos2| {
                let _ = io;
                let mut c = <$t as cipher::KeyIvInit>::new_from_slices(
                    core::slice::from_raw_parts(key, 32), core::slice::from_raw_parts(iv, $il)).ok().unwrap();
                if let Ok(p) = pos.try_into() { c.set_block_pos(p) }
                c
            });
        };
    }
    dk!(p_kc8, ChaChaCore<R8, Ietf>, 12);
    dk!(p_kc20, ChaChaCore<R20, Ietf>, 12);
    dk!(p_kc12, ChaChaCore<R12, Ietf>, 12);
    dk!(p_kl20, ChaCha20LegacyCore, 8);
    macro_rules! dr {
        ($n:ident, $t:ty) => {
            debug_probe!($n, |key, _iv, io, pos, pos2| {
                let mut c = <$t>::from_seed(core::slice::from_raw_parts(key, 32).try_into().unwrap());
                c.set_stream(pos2);
                c.set_word_pos(pos as u128);
                c.fill_bytes(io.out(0, 70));
                c
            });
        };
    }
    dr!(p_r8, ChaCha8Rng);
    dr!(p_r12, ChaCha12Rng);
    dr!(p_r20, ChaCha20Rng);
}
