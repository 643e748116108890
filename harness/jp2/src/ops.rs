use crate::io::*;
use libc::c_void;
use openjp2::image::*;
use openjp2::openjpeg::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::{c_char, CString};
use std::rc::Rc;

#[derive(Default)]
pub struct Msgs {
    err: Vec<String>,
    warn: u64,
    info: u64,
}

pub struct Codec {
    p: *mut opj_codec_t,
    msgs: Box<Msgs>,
}

pub struct Stream {
    p: *mut opj_stream_t,
    mem: Option<Shared>,
    path: Option<String>,
}

#[derive(Default)]
pub struct State {
    bufs: HashMap<String, Vec<u8>>,
    imgs: HashMap<String, *mut opj_image_t>,
    codecs: HashMap<String, Codec>,
    streams: HashMap<String, Stream>,
    content: HashMap<String, Value>,
    /// index and size of the last tile header read, by codec
    tile: HashMap<String, (u32, u32)>,
    /// did the last operation succeed?
    pub good: bool,
}

unsafe extern "C" fn on_err(m: *const c_char, d: *mut c_void) {
    let t = std::ffi::CStr::from_ptr(m).to_string_lossy().trim().to_string();
    let ms = &mut *(d as *mut Msgs);
    if ms.err.len() < 20 {
        ms.err.push(t);
    }
}
unsafe extern "C" fn on_warn(_m: *const c_char, d: *mut c_void) {
    (*(d as *mut Msgs)).warn += 1;
}
unsafe extern "C" fn on_info(_m: *const c_char, d: *mut c_void) {
    (*(d as *mut Msgs)).info += 1;
}

fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}
fn n(v: &Value, k: &str, d: i64) -> i64 {
    v[k].as_i64().unwrap_or(d)
}
fn ints(v: &Value) -> Vec<i64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap_or(0)).collect()).unwrap_or_default()
}
pub fn hex(b: &[u8]) -> String {
    let mut o = String::with_capacity(b.len() * 2);
    for x in b {
        o.push_str(&format!("{x:02x}"));
    }
    o
}
pub fn unhex(t: &str) -> Vec<u8> {
    (0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn cdiv(a: i64, b: i64) -> i64 {
    (a + b - 1) / b
}
fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_i32(d: &[i32]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in d {
        h = mix(h ^ (*x as u32 as u64));
    }
    h
}
pub fn hash_u8(d: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in d {
        h = mix(h ^ (*x as u64));
    }
    h
}

/// The sample that content `c` puts at (x, y) of component `k`.
fn sample(c: &Value, k: i64, x: i64, y: i64, prec: i64, sgnd: bool) -> i32 {
    let seed = n(c, "seed", 1) as u64;
    let h = mix(mix(mix(seed ^ ((k as u64) << 56)) ^ (x as u64)) ^ ((y as u64) << 20));
    let span = 1i64 << prec;
    let v = match s(c, "kind") {
        "const" => span / 3,
        "zero" => span / 2,
        "noise" => (h >> 11) as i64 % span,
        "smooth" => (x * 3 + y * 5 + k * 17 + (h % 3) as i64) % span,
        "sparse" => {
            if h % 29 == 0 {
                (h >> 20) as i64 % span
            } else {
                span / 2
            }
        }
        "extreme" => {
            if h % 2 == 0 {
                0
            } else {
                span - 1
            }
        }
        "grid" => {
            if (x / 3 + y / 2) % 2 == 0 {
                span - 1
            } else {
                0
            }
        }
        "list" => {
            let a = &c["data"][k as usize];
            let (ox, oy, w) = (n(a, "x0", 0), n(a, "y0", 0), n(a, "w", 1));
            return a["d"][((y - oy) * w + (x - ox)) as usize].as_i64().unwrap_or(0) as i32;
        }
        "mod" => n(c, "base", 0) + (h >> 11) as i64 % n(c, "mod", 2),
        _ => 0,
    };
    (if sgnd { v - span / 2 } else { v }) as i32
}

fn mkimg(st: &mut State, o: &Value) -> Value {
    let (x0, y0, x1, y1) = (n(o, "x0", 0), n(o, "y0", 0), n(o, "x1", 8), n(o, "y1", 8));
    let comps = o["comps"].as_array().cloned().unwrap_or_default();
    let mut parms: Vec<opj_image_cmptparm_t> = comps
        .iter()
        .map(|c| {
            let (dx, dy) = (n(c, "dx", 1), n(c, "dy", 1));
            let (cx, cy) = (dx.max(1), dy.max(1));
            opj_image_cmptparm_t {
                dx: dx as u32,
                dy: dy as u32,
                w: n(c, "w", cdiv(x1, cx) - cdiv(x0, cx)) as u32,
                h: n(c, "h", cdiv(y1, cy) - cdiv(y0, cy)) as u32,
                x0: x0 as u32,
                y0: y0 as u32,
                prec: n(c, "prec", 8) as u32,
                bpp: n(c, "prec", 8) as u32,
                sgnd: n(c, "sgnd", 0) as u32,
            }
        })
        .collect();
    let cs = match n(o, "cs", 0) {
        -1 => OPJ_CLRSPC_UNKNOWN,
        1 => OPJ_CLRSPC_SRGB,
        2 => OPJ_CLRSPC_GRAY,
        3 => OPJ_CLRSPC_SYCC,
        4 => OPJ_CLRSPC_EYCC,
        5 => OPJ_CLRSPC_CMYK,
        _ => OPJ_CLRSPC_UNSPECIFIED,
    };
    unsafe {
        let p = if o["nodata"] == json!(true) {
            opj_image_tile_create(parms.len() as u32, parms.as_mut_ptr(), cs)
        } else {
            opj_image_create(parms.len() as u32, parms.as_mut_ptr(), cs)
        };
        if p.is_null() {
            return json!({"ok": false});
        }
        let im = &mut *p;
        im.x0 = x0 as u32;
        im.y0 = y0 as u32;
        im.x1 = x1 as u32;
        im.y1 = y1 as u32;
        let content = &o["content"];
        for (k, c) in comps.iter().enumerate() {
            let ic = &mut *im.comps.add(k);
            ic.alpha = n(c, "alpha", 0) as u16;
            if ic.data.is_null() {
                continue;
            }
            let (ox, oy) = (cdiv(x0, (ic.dx as i64).max(1)), cdiv(y0, (ic.dy as i64).max(1)));
            for y in 0..ic.h as i64 {
                for x in 0..ic.w as i64 {
                    *ic.data.add((y * ic.w as i64 + x) as usize) =
                        sample(content, k as i64, ox + x, oy + y, ic.prec.min(31) as i64, ic.sgnd != 0);
                }
            }
        }
        if let Some(icc) = o["icc"].as_str() {
            let b = unhex(icc);
            im.icc_profile_buf = libc::malloc(b.len().max(1)) as *mut u8;
            std::ptr::copy_nonoverlapping(b.as_ptr(), im.icc_profile_buf, b.len());
            im.icc_profile_len = b.len() as u32;
        }
        if let Some(old) = st.imgs.insert(s(o, "i").into(), p) {
            opj_image_destroy(old);
        }
        st.content.insert(s(o, "i").into(), o.clone());
    }
    json!({"ok": true})
}

fn params(o: &Value) -> (Box<opj_cparameters_t>, Option<CString>) {
    let mut p: Box<opj_cparameters_t> = Box::default();
    unsafe { opj_set_default_encoder_parameters(&mut *p) };
    let q = &o["p"];
    if let Some(t) = q["tile"].as_array() {
        p.tile_size_on = 1;
        p.cp_tx0 = t[0].as_i64().unwrap() as i32;
        p.cp_ty0 = t[1].as_i64().unwrap() as i32;
        p.cp_tdx = t[2].as_i64().unwrap() as i32;
        p.cp_tdy = t[3].as_i64().unwrap() as i32;
    }
    p.numresolution = n(q, "nres", 6) as i32;
    p.cblockw_init = n(q, "cbw", 64) as i32;
    p.cblockh_init = n(q, "cbh", 64) as i32;
    p.prog_order = n(q, "prog", 0) as i32;
    p.csty = n(q, "csty", 0) as i32;
    p.mode = n(q, "mode", 0) as i32;
    p.irreversible = n(q, "irr", 0) as i32;
    p.tcp_mct = n(q, "mct", 0) as i8 as c_char;
    p.roi_compno = n(q, "roi_c", -1) as i32;
    p.roi_shift = n(q, "roi_s", 0) as i32;
    p.rsiz = n(q, "rsiz", 0) as u16;
    p.max_cs_size = n(q, "max_cs", 0) as i32;
    p.max_comp_size = n(q, "max_comp", 0) as i32;
    p.cp_cinema = n(q, "cinema", 0) as u32;
    p.cp_rsiz = n(q, "cp_rsiz", 0) as u32;
    if let Some(r) = q["rates"].as_array() {
        p.cp_disto_alloc = 1;
        p.tcp_numlayers = n(q, "layers", r.len() as i64) as i32;
        for (i, x) in r.iter().enumerate().take(100) {
            p.tcp_rates[i] = x.as_f64().unwrap() as f32;
        }
    }
    if let Some(r) = q["psnr"].as_array() {
        p.cp_fixed_quality = 1;
        p.tcp_numlayers = n(q, "layers", r.len() as i64) as i32;
        for (i, x) in r.iter().enumerate().take(100) {
            p.tcp_distoratio[i] = x.as_f64().unwrap() as f32;
        }
    }
    if q["rates"].is_null() && q["psnr"].is_null() && !q["layers"].is_null() {
        p.tcp_numlayers = n(q, "layers", 0) as i32;
        p.cp_disto_alloc = 1;
    }
    if let Some(r) = q["prec"].as_array() {
        p.res_spec = n(q, "res_spec", r.len() as i64) as i32;
        for (i, x) in r.iter().enumerate().take(33) {
            p.prcw_init[i] = x[0].as_i64().unwrap() as i32;
            p.prch_init[i] = x[1].as_i64().unwrap() as i32;
        }
    } else {
        p.res_spec = n(q, "res_spec", 0) as i32;
    }
    if let Some(r) = q["poc"].as_array() {
        p.numpocs = n(q, "numpocs", r.len() as i64) as u32;
        for (i, x) in r.iter().enumerate().take(32) {
            let a = ints(x); // tile, res0, comp0, lay1, res1, comp1, prog
            let c = &mut p.POC[i];
            c.tile = a[0] as u32;
            c.resno0 = a[1] as u32;
            c.compno0 = a[2] as u32;
            c.layno1 = a[3] as u32;
            c.resno1 = a[4] as u32;
            c.compno1 = a[5] as u32;
            c.prg1 = a[6] as i32;
        }
    }
    if let Some(t) = q["tp"].as_str() {
        p.tp_on = 1;
        p.tp_flag = t.as_bytes()[0] as c_char;
    }
    p.jpip_on = n(q, "jpip", 0) as i32;
    p.cp_fixed_alloc = n(q, "fixed_alloc", 0) as i32;
    if let Some(m) = q["matrix"].as_array() {
        // the library does not take it over; the process is short-lived
        p.cp_matrice = Box::leak(m.iter().map(|x| x.as_i64().unwrap() as i32).collect::<Vec<_>>().into_boxed_slice()).as_mut_ptr();
    }
    if let Some(m) = q["mctm"].as_array() {
        let mut m: Vec<f32> = m.iter().map(|x| x.as_f64().unwrap() as f32).collect();
        let mut d: Vec<i32> = ints(&q["dc"]).iter().map(|x| *x as i32).collect();
        unsafe { opj_set_MCT(&mut *p, m.as_mut_ptr(), d.as_mut_ptr(), d.len() as u32) };
    }
    let mut keep = None;
    if let Some(c) = q["comment"].as_str() {
        let c = CString::new(c).unwrap();
        p.cp_comment = c.as_ptr() as *mut c_char;
        keep = Some(c);
    }
    (p, keep)
}

fn codec<'a>(st: &'a mut State, o: &Value) -> Option<&'a mut Codec> {
    st.codecs.get_mut(s(o, "c"))
}
fn cp(st: &State, o: &Value) -> *mut opj_codec_t {
    st.codecs.get(s(o, "c")).map(|c| c.p).unwrap_or(std::ptr::null_mut())
}
fn sp(st: &State, o: &Value) -> *mut opj_stream_t {
    st.streams.get(s(o, "s")).map(|c| c.p).unwrap_or(std::ptr::null_mut())
}
fn ip(st: &State, o: &Value) -> *mut opj_image_t {
    st.imgs.get(s(o, "i")).copied().unwrap_or(std::ptr::null_mut())
}

fn show(p: *mut opj_image_t, full: bool, geo: bool) -> Value {
    if p.is_null() {
        return json!({"null": true});
    }
    let im = unsafe { &*p };
    let mut comps = vec![];
    for k in 0..im.numcomps as usize {
        let c = unsafe { &*im.comps.add(k) };
        let mut j = json!({"dx": c.dx, "dy": c.dy, "w": c.w, "h": c.h, "x0": c.x0, "y0": c.y0, "prec": c.prec, "sgnd": c.sgnd,
            "factor": c.factor, "res": c.resno_decoded, "alpha": c.alpha, "null": c.data.is_null()});
        if !c.data.is_null() && !geo {
            let d = unsafe { std::slice::from_raw_parts(c.data, c.w as usize * c.h as usize) };
            j["hash"] = json!(format!("{:016x}", hash_i32(d)));
            if full {
                j["d"] = json!(d);
            }
        }
        comps.push(j);
    }
    let icc = if im.icc_profile_buf.is_null() {
        Value::Null
    } else {
        unsafe { json!(hex(std::slice::from_raw_parts(im.icc_profile_buf, im.icc_profile_len as usize))) }
    };
    json!({"x0": im.x0, "y0": im.y0, "x1": im.x1, "y1": im.y1, "cs": im.color_space as i32, "comps": comps, "icc": icc, "icclen": im.icc_profile_len})
}

/// Compare image i (maybe a part, maybe fewer components) with image j at equal component coordinates.
/// The origin of a component at factor f is ceil(ceil(x0/dx) / 2^f).
fn cmp(a: &opj_image_t, b: &opj_image_t) -> Value {
    let mut out = vec![];
    for k in 0..a.numcomps.min(b.numcomps) as usize {
        let (c, d) = unsafe { (&*a.comps.add(k), &*b.comps.add(k)) };
        if c.data.is_null() || d.data.is_null() {
            out.push(json!({"null": [c.data.is_null(), d.data.is_null()]}));
            continue;
        }
        let org = |im: &opj_image_t, c: &opj_image_comp_t| {
            let f = 1i64 << c.factor.min(32);
            (cdiv(cdiv(im.x0 as i64, c.dx.max(1) as i64), f), cdiv(cdiv(im.y0 as i64, c.dy.max(1) as i64), f))
        };
        let ((ax, ay), (bx, by)) = (org(a, c), org(b, d));
        let (mut eq, mut ne, mut outside) = (0u64, 0u64, 0u64);
        let mut first = Value::Null;
        for y in 0..c.h as i64 {
            for x in 0..c.w as i64 {
                let (u, v) = (ax + x - bx, ay + y - by);
                if u < 0 || v < 0 || u >= d.w as i64 || v >= d.h as i64 {
                    outside += 1;
                    continue;
                }
                let (p, q) = unsafe {
                    (*c.data.add((y * c.w as i64 + x) as usize), *d.data.add((v * d.w as i64 + u) as usize))
                };
                if p == q {
                    eq += 1
                } else {
                    ne += 1;
                    if first.is_null() {
                        first = json!([ax + x, ay + y, p, q]);
                    }
                }
            }
        }
        out.push(json!({"eq": eq, "ne": ne, "outside": outside, "first": first}));
    }
    json!({"nc": [a.numcomps, b.numcomps], "comps": out})
}

fn info(p: *mut opj_codec_t) -> Value {
    unsafe {
        let mut i = opj_get_cstr_info(p);
        if i.is_null() {
            return json!({"null": true});
        }
        let c = &*i;
        let t = &c.m_default_tile_info;
        let mut tc = vec![];
        if !t.tccp_info.is_null() {
            for k in 0..c.nbcomps as usize {
                let x = &*t.tccp_info.add(k);
                let nr = (x.numresolutions as usize).min(33);
                let nb = (3 * nr).saturating_sub(2).min(97);
                tc.push(json!({"compno": x.compno, "csty": x.csty, "nres": x.numresolutions, "cblkw": x.cblkw, "cblkh": x.cblkh,
                    "cblksty": x.cblksty, "qmfbid": x.qmfbid, "qntsty": x.qntsty, "mant": x.stepsizes_mant[..nb].to_vec(),
                    "expn": x.stepsizes_expn[..nb].to_vec(), "gbits": x.numgbits, "roi": x.roishift,
                    "prcw": x.prcw[..nr].to_vec(), "prch": x.prch[..nr].to_vec()}));
            }
        }
        let r = json!({"tx0": c.tx0, "ty0": c.ty0, "tdx": c.tdx, "tdy": c.tdy, "tw": c.tw, "th": c.th, "nbcomps": c.nbcomps,
            "tileno": t.tileno, "csty": t.csty, "prg": t.prg, "layers": t.numlayers, "mct": t.mct, "tccp": tc, "tiles_null": c.tile_info.is_null()});
        opj_destroy_cstr_info(&mut i);
        r
    }
}

fn index(p: *mut opj_codec_t) -> Value {
    unsafe {
        let mut i = opj_get_cstr_index(p);
        if i.is_null() {
            return json!({"null": true});
        }
        let c = &*i;
        let marks = |m: *mut opj_marker_info_t, k: u32| -> Vec<Value> {
            if m.is_null() {
                return vec![];
            }
            (0..k as usize).map(|j| { let x = &*m.add(j); json!([x.type_, x.pos, x.len]) }).collect()
        };
        let mut tiles = vec![];
        if !c.tile_index.is_null() {
            for k in 0..c.nb_of_tiles as usize {
                let t = &*c.tile_index.add(k);
                let tps: Vec<Value> = if t.tp_index.is_null() {
                    vec![]
                } else {
                    (0..t.nb_tps as usize).map(|j| { let x = &*t.tp_index.add(j); json!([x.start_pos, x.end_header, x.end_pos]) }).collect()
                };
                tiles.push(json!({"tileno": t.tileno, "nb_tps": t.nb_tps, "tps": tps, "marks": marks(t.marker, t.marknum)}));
            }
        }
        let r = json!({"start": c.main_head_start, "end": c.main_head_end, "size": c.codestream_size, "marks": marks(c.marker, c.marknum),
            "nb_tiles": c.nb_of_tiles, "tiles": tiles});
        opj_destroy_cstr_index(&mut i);
        r
    }
}

fn newcodec(st: &mut State, o: &Value, enc: bool) -> Value {
    let f = match s(o, "fmt") {
        "j2k" => OPJ_CODEC_J2K,
        "jp2" => OPJ_CODEC_JP2,
        "jpt" => OPJ_CODEC_JPT,
        "jpp" => OPJ_CODEC_JPP,
        "jpx" => OPJ_CODEC_JPX,
        _ => OPJ_CODEC_UNKNOWN,
    };
    let p = unsafe { if enc { opj_create_compress(f) } else { opj_create_decompress(f) } };
    if p.is_null() {
        return json!({"ok": false});
    }
    let mut m = Box::<Msgs>::default();
    let d = &mut *m as *mut Msgs as *mut c_void;
    if o["nomsg"] != json!(true) {
        unsafe {
            opj_set_error_handler(p, Some(on_err), d);
            opj_set_warning_handler(p, Some(on_warn), d);
            opj_set_info_handler(p, Some(on_info), d);
        }
    }
    if let Some(c) = st.codecs.insert(s(o, "c").into(), Codec { p, msgs: m }) {
        unsafe { opj_destroy_codec(c.p) };
    }
    json!({"ok": true})
}

fn mkstream(st: &mut State, o: &Value) -> Value {
    let input = o["in"].as_bool().unwrap_or(false);
    let bs = n(o, "bs", 0x100000) as usize;
    let name = s(o, "s").to_string();
    unsafe {
        let stream = if let Some(path) = o["path"].as_str() {
            if input {
                if let Some(b) = o["buf"].as_str() {
                    std::fs::write(path, &st.bufs[b]).unwrap();
                }
            }
            let c = CString::new(path).unwrap();
            let p = if o["bs"].is_null() {
                opj_stream_create_default_file_stream(c.as_ptr(), input as i32)
            } else {
                opj_stream_create_file_stream(c.as_ptr(), bs, input as i32)
            };
            if p.is_null() {
                return json!({"ok": false});
            }
            Stream { p, mem: None, path: Some(path.into()) }
        } else {
            let mut m = Mem::default();
            if input {
                m.data = st.bufs.get(s(o, "buf")).cloned().unwrap_or_default();
            }
            m.avail = n(o, "avail", m.data.len() as i64) as usize;
            m.chunks = ints(&o["chunks"]).iter().map(|x| *x as usize).collect();
            m.steps = o["steps"] == json!(true);
            m.fail_read = n(o, "fail_read", 0) as u64;
            m.fail_write = n(o, "fail_write", 0) as u64;
            m.fail_skip = n(o, "fail_skip", 0) as u64;
            m.fail_seek = n(o, "fail_seek", 0) as u64;
            m.sticky = o["sticky"].as_bool().unwrap_or(false);
            m.eof_zero = o["eof_zero"].as_bool().unwrap_or(false);
            m.capacity = n(o, "capacity", 0) as usize;
            m.logging = o["log"].as_bool().unwrap_or(false);
            let len = m.data.len() as u64;
            let mem: Shared = Rc::new(RefCell::new(m));
            let p = if o["bs"].is_null() { opj_stream_default_create(input as i32) } else { opj_stream_create(bs, input as i32) };
            let no = |k: &str| o["no"].as_array().map(|a| a.iter().any(|x| x == k)).unwrap_or(false);
            if !no("read") {
                opj_stream_set_read_function(p, Some(read_fn));
            }
            if !no("write") {
                opj_stream_set_write_function(p, Some(write_fn));
            }
            if !no("skip") {
                opj_stream_set_skip_function(p, Some(skip_fn));
            }
            if !no("seek") {
                opj_stream_set_seek_function(p, Some(seek_fn));
            }
            opj_stream_set_user_data(p, Rc::as_ptr(&mem) as *mut c_void, Some(free_fn));
            if input && o["len"].as_bool().unwrap_or(true) {
                opj_stream_set_user_data_length(p, n(o, "length", len as i64) as u64);
            }
            Stream { p, mem: Some(mem), path: None }
        };
        if let Some(old) = st.streams.insert(name, stream) {
            opj_stream_destroy(old.p);
        }
    }
    json!({"ok": true})
}

fn sinfo(st: &mut State, o: &Value) -> Value {
    let Some(x) = st.streams.get(s(o, "s")) else { return json!({"ok": false}) };
    let (data, mut j) = match (&x.mem, &x.path) {
        (Some(m), _) => {
            let m = m.borrow();
            let log: Vec<Value> = m.log.iter().map(|(k, a, b)| json!([k.to_string(), a, b])).collect();
            (m.data.clone(), json!({"ok": true, "pos": m.pos, "reads": m.reads, "writes": m.writes, "skips": m.skips, "seeks": m.seeks,
                "failed": m.failed, "freed": m.freed, "bad": m.bad, "log": log}))
        }
        (_, Some(p)) => (std::fs::read(p).unwrap_or_default(), json!({"ok": true})),
        _ => (vec![], json!({"ok": true})),
    };
    j["n"] = json!(data.len());
    j["hash"] = json!(format!("{:016x}", hash_u8(&data)));
    if o["hex"] == json!(true) {
        j["hex"] = json!(hex(&data));
    }
    if o["bytes"] == json!(true) {
        j["bytes"] = json!(data);
    }
    if let Some(b) = o["to"].as_str() {
        st.bufs.insert(b.into(), data);
    }
    j
}

/// Samples of tile rectangle (component coordinates) of image i as opj_write_tile wants them.
fn tile_bytes(im: &opj_image_t, rect: &[i64]) -> Vec<u8> {
    let mut out = vec![];
    for k in 0..im.numcomps as usize {
        let c = unsafe { &*im.comps.add(k) };
        let (dx, dy) = (c.dx as i64, c.dy as i64);
        let (cx0, cy0) = (cdiv(im.x0 as i64, dx), cdiv(im.y0 as i64, dy));
        let (x0, y0, x1, y1) = (cdiv(rect[0], dx), cdiv(rect[1], dy), cdiv(rect[2], dx), cdiv(rect[3], dy));
        let size = match (c.prec + 7) / 8 {
            1 => 1,
            2 => 2,
            _ => 4,
        };
        for y in y0..y1 {
            for x in x0..x1 {
                let v = unsafe { *c.data.add(((y - cy0) * c.w as i64 + (x - cx0)) as usize) };
                out.extend_from_slice(&v.to_ne_bytes()[..size]);
            }
        }
    }
    out
}

pub fn exec(st: &mut State, o: &Value) -> Value {
    let op = s(o, "op");
    let b = |x: i32| json!({"ok": x != 0, "raw": x});
    unsafe {
        match op {
            "buf" => {
                let d = if let Some(h) = o["hex"].as_str() {
                    unhex(h)
                } else if let Some(f) = o["file"].as_str() {
                    std::fs::read(f).unwrap()
                } else if let Some(src) = o["from"].as_str() {
                    let mut d = st.bufs[src].clone();
                    if let Some(k) = o["cut"].as_i64() {
                        d.truncate(k as usize);
                    }
                    if let Some(a) = o["patch"].as_array() {
                        for e in a {
                            let p = e[0].as_u64().unwrap() as usize;
                            if p < d.len() {
                                d[p] = e[1].as_u64().unwrap() as u8;
                            }
                        }
                    }
                    d
                } else {
                    o["bytes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
                };
                let r = json!({"ok": true, "n": d.len(), "hash": format!("{:016x}", hash_u8(&d))});
                st.bufs.insert(s(o, "b").into(), d);
                r
            }
            "getbuf" => {
                let d = &st.bufs[s(o, "b")];
                json!({"ok": true, "n": d.len(), "hex": hex(d)})
            }
            "mkimg" => mkimg(st, o),
            "img" if o["good"] == json!(true) && !st.good => json!({"null": true}),
            "img" => show(ip(st, o), o["full"] == json!(true), o["geo"] == json!(true)),
            "freeimg" => {
                if let Some(p) = st.imgs.remove(s(o, "i")) {
                    opj_image_destroy(p);
                }
                json!({"ok": true})
            }
            "cmp" => {
                let (a, c) = (ip(st, o), st.imgs.get(s(o, "j")).copied().unwrap_or(std::ptr::null_mut()));
                if a.is_null() || c.is_null() {
                    return json!({"ok": false});
                }
                cmp(&*a, &*c)
            }
            "enc_new" => newcodec(st, o, true),
            "dec_new" => {
                st.tile.remove(s(o, "c"));
                newcodec(st, o, false)
            }
            "msgs" => match codec(st, o) {
                Some(c) => {
                    let r = json!({"err": c.msgs.err, "warn": c.msgs.warn});
                    c.msgs.err.clear();
                    r
                }
                None => json!({"ok": false}),
            },
            "enc_setup" => {
                let (mut p, _keep) = params(o);
                b(opj_setup_encoder(cp(st, o), &mut *p, ip(st, o)))
            }
            "enc_extra" => {
                let v: Vec<CString> = o["x"].as_array().unwrap().iter().map(|x| CString::new(x.as_str().unwrap()).unwrap()).collect();
                let mut q: Vec<*const c_char> = v.iter().map(|x| x.as_ptr()).collect();
                q.push(std::ptr::null());
                b(opj_encoder_set_extra_options(cp(st, o), q.as_ptr()))
            }
            "threads" => b(opj_codec_set_threads(cp(st, o), n(o, "n", 0) as i32)),
            "start" => b(opj_start_compress(cp(st, o), ip(st, o), sp(st, o))),
            "encode" => b(opj_encode(cp(st, o), sp(st, o))),
            "end" => b(opj_end_compress(cp(st, o), sp(st, o))),
            "wtile" => {
                let mut d = if let Some(r) = o["rect"].as_array() {
                    let r: Vec<i64> = r.iter().map(|x| x.as_i64().unwrap()).collect();
                    tile_bytes(&*ip(st, o), &r)
                } else {
                    vec![0u8; n(o, "size", 0) as usize]
                };
                let size = d.len() as i64 + n(o, "extra", 0);
                d.resize(size.max(0) as usize, 0);
                let r = opj_write_tile(cp(st, o), n(o, "t", 0) as u32, d.as_mut_ptr(), d.len() as u32, sp(st, o));
                json!({"ok": r != 0, "n": d.len()})
            }
            "stream" => mkstream(st, o),
            "sinfo" => sinfo(st, o),
            "sfree" => {
                let mut r = json!({"ok": false});
                if let Some(x) = st.streams.remove(s(o, "s")) {
                    opj_stream_destroy(x.p);
                    r = json!({"ok": true});
                    if let Some(m) = &x.mem {
                        let m = m.borrow();
                        r = json!({"ok": true, "freed": m.freed, "n": m.data.len(), "hash": format!("{:016x}", hash_u8(&m.data)),
                            "writes": m.writes, "failed": m.failed, "pos": m.pos, "reads": m.reads, "skips": m.skips, "seeks": m.seeks});
                        if m.logging {
                            r["log"] = m.log.iter().map(|(k, a, b)| json!({"k": k.to_string(), "a": a, "b": b})).collect();
                        }
                        if let Some(b) = o["to"].as_str() {
                            st.bufs.insert(b.into(), m.data.clone());
                        }
                    } else if let (Some(b), Some(p)) = (o["to"].as_str(), &x.path) {
                        st.bufs.insert(b.into(), std::fs::read(p).unwrap_or_default());
                    }
                }
                r
            }
            "cfree" => {
                if let Some(c) = st.codecs.remove(s(o, "c")) {
                    opj_destroy_codec(c.p);
                }
                json!({"ok": true})
            }
            "dec_setup" => {
                let mut p: Box<opj_dparameters_t> = Box::default();
                opj_set_default_decoder_parameters(&mut *p);
                p.cp_reduce = n(o, "reduce", 0) as u32;
                p.cp_layer = n(o, "layer", 0) as u32;
                p.flags = n(o, "flags", 0) as u32;
                b(opj_setup_decoder(cp(st, o), &mut *p))
            }
            "strict" => b(opj_decoder_set_strict_mode(cp(st, o), n(o, "v", 1) as i32)),
            "hdr" => {
                let mut img: *mut opj_image_t = std::ptr::null_mut();
                let r = opj_read_header(sp(st, o), cp(st, o), &mut img);
                let isnull = img.is_null();
                if !isnull {
                    if let Some(old) = st.imgs.insert(s(o, "i").into(), img) {
                        opj_image_destroy(old);
                    }
                }
                json!({"ok": r != 0, "raw": r, "img": !isnull})
            }
            "comps" => {
                let v: Vec<u32> = ints(&o["x"]).iter().map(|x| *x as u32).collect();
                b(opj_set_decoded_components(cp(st, o), n(o, "n", v.len() as i64) as u32, v.as_ptr(), n(o, "ct", 0) as i32))
            }
            "area" => b(opj_set_decode_area(
                cp(st, o),
                ip(st, o),
                n(o, "x0", 0) as i32,
                n(o, "y0", 0) as i32,
                n(o, "x1", 0) as i32,
                n(o, "y1", 0) as i32,
            )),
            "resf" => b(opj_set_decoded_resolution_factor(cp(st, o), n(o, "n", 0) as u32)),
            "dec" => b(opj_decode(cp(st, o), sp(st, o), ip(st, o))),
            "gtile" => b(opj_get_decoded_tile(cp(st, o), sp(st, o), ip(st, o), n(o, "t", 0) as u32)),
            "rth" => {
                let (mut idx, mut size, mut nb) = (0xdeadu32, 0u32, 0u32);
                let (mut x0, mut y0, mut x1, mut y1) = (0i32, 0, 0, 0);
                let mut go = 7i32;
                let r = opj_read_tile_header(cp(st, o), sp(st, o), &mut idx, &mut size, &mut x0, &mut y0, &mut x1, &mut y1, &mut nb, &mut go);
                if r != 0 {
                    st.tile.insert(s(o, "c").into(), (idx, size));
                }
                json!({"ok": r != 0, "idx": idx, "size": size, "x0": x0, "y0": y0, "x1": x1, "y1": y1, "nb": nb, "go": go})
            }
            "dtd" => {
                let last = st.tile.get(s(o, "c")).copied().unwrap_or_default();
                // "more": the tile last announced, with that many bytes more than its size
                let (t, size) = match o["more"].as_i64() {
                    Some(k) => ((last.0 as i64 + n(o, "plus", 0)) as u32, (last.1.min(1 << 24) as i64 + k).max(0) as usize),
                    None => (n(o, "t", 0) as u32, n(o, "size", 0) as usize),
                };
                let mut d = vec![0u8; size];
                let r = opj_decode_tile_data(cp(st, o), t, if o["null"] == json!(true) { std::ptr::null_mut() } else { d.as_mut_ptr() }, size as u32, sp(st, o));
                let mut j = json!({"ok": r != 0, "n": size, "t": t});
                if r != 0 {
                    if o["bytes"] == json!(true) {
                        j["bytes"] = json!(d);
                    }
                    // compare with the tile rectangle of reference image i
                    if let Some(rect) = o["rect"].as_array() {
                        let rect: Vec<i64> = rect.iter().map(|x| x.as_i64().unwrap()).collect();
                        let p = ip(st, o);
                        if !p.is_null() {
                            let e = tile_bytes(&*p, &rect);
                            j["want"] = json!(e.len());
                            j["same"] = json!(e == d);
                        }
                    }
                    j["hash"] = json!(format!("{:016x}", hash_u8(&d)));
                    if o["hex"] == json!(true) {
                        j["hex"] = json!(hex(&d));
                    }
                }
                j
            }
            "end_dec" => b(opj_end_decompress(cp(st, o), sp(st, o))),
            "info" => info(cp(st, o)),
            "index" => index(cp(st, o)),
            "dump" => {
                let f = libc::tmpfile();
                opj_dump_codec(cp(st, o), n(o, "flag", 0) as i32, f as *mut _);
                let k = libc::ftell(f);
                libc::fclose(f);
                json!({"ok": true, "n": k})
            }
            _ => json!({"unknown": op}),
        }
    }
}

pub fn drop_all(st: &mut State) {
    unsafe {
        for (_, c) in st.codecs.drain() {
            opj_destroy_codec(c.p);
        }
        for (_, x) in st.streams.drain() {
            opj_stream_destroy(x.p);
        }
        for (_, i) in st.imgs.drain() {
            opj_image_destroy(i);
        }
    }
}

pub fn messages(st: &State) -> Value {
    json!({"stopped": true, "err": st.codecs.values().flat_map(|c| c.msgs.err.clone()).collect::<Vec<_>>()})
}
