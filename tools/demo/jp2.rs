//! Small helpers around the C style interface of openjp2, with streams in memory.
#![allow(dead_code)]
pub use openjp2::image::*;
pub use openjp2::openjpeg::*;
use std::ffi::c_void;
use std::os::raw::c_char;

pub struct Mem {
    pub data: Vec<u8>,
    pub pos: usize,
    pub step: usize, // deliver or accept at most this many bytes at once (0: all)
}
unsafe extern "C" fn rd(b: *mut c_void, n: usize, d: *mut c_void) -> usize {
    let m = &mut *(d as *mut Mem);
    if m.pos >= m.data.len() {
        return usize::MAX;
    }
    let mut k = n.min(m.data.len() - m.pos);
    if m.step > 0 {
        k = k.min(m.step);
    }
    std::ptr::copy_nonoverlapping(m.data.as_ptr().add(m.pos), b as *mut u8, k);
    m.pos += k;
    k
}
unsafe extern "C" fn wr(b: *mut c_void, n: usize, d: *mut c_void) -> usize {
    let m = &mut *(d as *mut Mem);
    let k = if m.step > 0 { n.min(m.step) } else { n };
    if m.data.len() < m.pos + k {
        m.data.resize(m.pos + k, 0);
    }
    std::ptr::copy_nonoverlapping(b as *const u8, m.data.as_mut_ptr().add(m.pos), k);
    m.pos += k;
    k
}
unsafe extern "C" fn sk(n: i64, d: *mut c_void) -> i64 {
    let m = &mut *(d as *mut Mem);
    m.pos = (m.pos as i64 + n).max(0) as usize;
    n
}
unsafe extern "C" fn se(n: i64, d: *mut c_void) -> i32 {
    (*(d as *mut Mem)).pos = n.max(0) as usize;
    1
}
unsafe extern "C" fn nofree(_: *mut c_void) {}

pub unsafe fn stream(m: &mut Mem, input: bool, bs: usize) -> *mut opj_stream_t {
    let s = if bs == 0 { opj_stream_default_create(input as i32) } else { opj_stream_create(bs, input as i32) };
    opj_stream_set_read_function(s, Some(rd));
    opj_stream_set_write_function(s, Some(wr));
    opj_stream_set_skip_function(s, Some(sk));
    opj_stream_set_seek_function(s, Some(se));
    opj_stream_set_user_data(s, m as *mut Mem as *mut c_void, Some(nofree));
    if input {
        opj_stream_set_user_data_length(s, m.data.len() as u64);
    }
    s
}
pub fn mem(data: &[u8]) -> Box<Mem> {
    Box::new(Mem { data: data.to_vec(), pos: 0, step: 0 })
}
pub fn cdiv(a: u32, b: u32) -> u32 {
    (a + b - 1) / b
}
/// comps: (dx, dy, prec, sgnd); f gives the sample of component k at (x, y)
pub unsafe fn image(r: [u32; 4], comps: &[(u32, u32, u32, u32)], f: impl Fn(usize, u32, u32) -> i32) -> *mut opj_image_t {
    let mut p: Vec<opj_image_cmptparm_t> = comps
        .iter()
        .map(|c| opj_image_cmptparm_t {
            dx: c.0,
            dy: c.1,
            w: cdiv(r[2], c.0) - cdiv(r[0], c.0),
            h: cdiv(r[3], c.1) - cdiv(r[1], c.1),
            x0: r[0],
            y0: r[1],
            prec: c.2,
            bpp: c.2,
            sgnd: c.3,
        })
        .collect();
    let im = opj_image_create(p.len() as u32, p.as_mut_ptr(), if comps.len() >= 3 { OPJ_CLRSPC_SRGB } else { OPJ_CLRSPC_GRAY });
    (*im).x0 = r[0];
    (*im).y0 = r[1];
    (*im).x1 = r[2];
    (*im).y1 = r[3];
    for (k, q) in p.iter().enumerate() {
        let c = &*(*im).comps.add(k);
        for i in 0..q.w * q.h {
            *c.data.add(i as usize) = f(k, i % q.w, i / q.w);
        }
    }
    im
}
pub unsafe fn encode(im: *mut opj_image_t, fmt: OPJ_CODEC_FORMAT, extra: &[&str], set: impl FnOnce(&mut opj_cparameters_t)) -> Option<Vec<u8>> {
    let c = opj_create_compress(fmt);
    let mut p: Box<opj_cparameters_t> = Box::default();
    opj_set_default_encoder_parameters(&mut *p);
    set(&mut p);
    let mut m = mem(&[]);
    let mut ok = opj_setup_encoder(c, &mut *p, im) != 0;
    if ok && !extra.is_empty() {
        let v: Vec<std::ffi::CString> = extra.iter().map(|x| std::ffi::CString::new(*x).unwrap()).collect();
        let mut q: Vec<*const c_char> = v.iter().map(|x| x.as_ptr()).collect();
        q.push(std::ptr::null());
        ok = opj_encoder_set_extra_options(c, q.as_ptr()) != 0;
    }
    let s = stream(&mut m, false, 0);
    ok = ok && opj_start_compress(c, im, s) != 0 && opj_encode(c, s) != 0 && opj_end_compress(c, s) != 0;
    opj_stream_destroy(s);
    opj_destroy_codec(c);
    if ok { Some(m.data.clone()) } else { None }
}
/// Decode; `pre` may set options or the area once the header has been read. None when any step fails.
pub unsafe fn decode(
    data: &[u8],
    fmt: OPJ_CODEC_FORMAT,
    set: impl FnOnce(&mut opj_dparameters_t),
    pre: impl FnOnce(*mut opj_codec_t, *mut opj_image_t) -> bool,
) -> Option<*mut opj_image_t> {
    let c = opj_create_decompress(fmt);
    let mut p: Box<opj_dparameters_t> = Box::default();
    opj_set_default_decoder_parameters(&mut *p);
    set(&mut p);
    let mut m = mem(data);
    let s = stream(&mut m, true, 0);
    let mut im: *mut opj_image_t = std::ptr::null_mut();
    let ok = opj_setup_decoder(c, &mut *p) != 0
        && opj_read_header(s, c, &mut im) != 0
        && pre(c, im)
        && opj_decode(c, s, im) != 0
        && opj_end_decompress(c, s) != 0;
    opj_stream_destroy(s);
    opj_destroy_codec(c);
    if ok { Some(im) } else { None }
}
pub unsafe fn plane(im: *mut opj_image_t, k: usize) -> Vec<i32> {
    let c = &*(*im).comps.add(k);
    if c.data.is_null() {
        return vec![];
    }
    std::slice::from_raw_parts(c.data, c.w as usize * c.h as usize).to_vec()
}
pub fn noise(k: usize, x: u32, y: u32, span: i32) -> i32 {
    let mut z = (k as u64) << 40 ^ (x as u64) << 20 ^ y as u64;
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    ((z ^ (z >> 31)) % span as u64) as i32
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        eprintln!("FAILED: {what}");
        std::process::exit(1);
    }
}
