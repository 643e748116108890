From 006ff3a323aa9a2b5d738e82c2a3661d4fa0f247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:35 +0000
Subject: [PATCH 01/81] fix: refuse identifiers that lead outside the image
 directory

---
 src/resolve.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 3bd408a..f551554 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -1,5 +1,6 @@
 use std::fmt::Debug;
-use std::path::Path;
+use std::io;
+use std::path::{Component, Path};
 
 use glommio::io::{ImmutableFile, ImmutableFileBuilder};
 // TODO move to more appropriate module
@@ -15,6 +16,13 @@ impl DiskImageSource {
     }
 
     pub async fn resolve(&self, ident: &str) -> glommio::Result<ImmutableFile, ()> {
+        // Only plain relative paths are joined: `..` or an absolute path would escape the image
+        // directory.
+        let is_plain = |c| matches!(c, Component::Normal(_) | Component::CurDir);
+        if !Path::new(ident).components().all(is_plain) {
+            return Err(io::Error::from(io::ErrorKind::NotFound).into());
+        }
+
         let file = self.path.join(ident);
         ImmutableFileBuilder::new(file).build_existing().await
     }
-- 
2.43.0


From d2a4c0c7c7736fad5f30ad87ab4bfcc26c53f8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:35 +0000
Subject: [PATCH 02/81] fix: an identifier with a NUL must not panic the shard
 that serves it

---
 src/resolve.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/resolve.rs b/src/resolve.rs
index f551554..443260d 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -23,6 +23,11 @@ impl DiskImageSource {
             return Err(io::Error::from(io::ErrorKind::NotFound).into());
         }
 
+        // A NUL cannot be part of a file name, and glommio panics when given one.
+        if ident.contains('\0') {
+            return Err(io::Error::from(io::ErrorKind::NotFound).into());
+        }
+
         let file = self.path.join(ident);
         ImmutableFileBuilder::new(file).build_existing().await
     }
-- 
2.43.0


From 3bfa01e8506e3e04f60dd59a8aa30e2be1963125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:36 +0000
Subject: [PATCH 03/81] fix: answer info requests with 501 instead of panicking
 the shard

---
 src/http.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index 70d55f7..e308eb4 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -137,7 +137,11 @@ impl From<ImageRequestParseError> for ImageRequestError {
 pub enum InfoRequestError {}
 
 fn info_request(path: &str) -> Result<Response<ResponseBody>, Infallible> {
-    unimplemented!()
+    // TODO: a panic here would take down the whole shard.
+    Ok(Response::builder()
+        .status(StatusCode::NOT_IMPLEMENTED)
+        .body(ResponseBody::new("not implemented"))
+        .unwrap())
 }
 
 fn bad_request<I: Into<Bytes>>(body: I) -> Response<ResponseBody> {
-- 
2.43.0


From 88a064c7b8345940767d286fb97afa3b645d3f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:37 +0000
Subject: [PATCH 04/81] fix: skip the leading path segment in release builds
 too

---
 src/http.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index e308eb4..2af835c 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -55,7 +55,8 @@ async fn image_request(
 
 fn decode_image_request(path: &str) -> Result<ImageRequest, ImageRequestError> {
     let mut segments = path.split('/');
-    debug_assert!(segments.next().is_some_and(|s| s.is_empty()));
+    let leading = segments.next();
+    debug_assert!(leading.is_some_and(|s| s.is_empty()));
 
     let identifier = segments
         .next()
-- 
2.43.0


From 4269e65f8a1e661c0c45cb47560b44d116d0e66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:59 +0000
Subject: [PATCH 05/81] verif: guarded entry points (cfg laya_verif)

---
 src/http.rs  |  5 +++++
 src/lib.rs   |  2 ++
 src/verif.rs | 33 +++++++++++++++++++++++++++++++++
 3 files changed, 40 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/http.rs b/src/http.rs
index 2af835c..3e9b0d2 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -100,6 +100,11 @@ fn decode_image_request(path: &str) -> Result<ImageRequest, ImageRequestError> {
     Ok(ImageRequest::new(identifier, region, size, rotation, quality, format))
 }
 
+#[cfg(laya_verif)]
+pub(crate) fn verif_decode(path: &str) -> Result<ImageRequest, ImageRequestError> {
+    decode_image_request(path)
+}
+
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub enum ImageRequestError {
     /// If the URI did not contain an expected element.
diff --git a/src/lib.rs b/src/lib.rs
index c2c0ad2..5177ee1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,6 +6,8 @@ compile_error!("Laya requires a Linux kernel >= 5.8");
 mod http;
 mod iiif;
 mod resolve;
+#[cfg(laya_verif)]
+pub mod verif;
 
 // TODO: split this sample code into http.
 mod hyper_compat {
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..33762d8
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,33 @@
+//! Entry points for the external verification harness. Only built with `--cfg laya_verif`.
+
+use std::io;
+use std::net::SocketAddr;
+use std::path::Path;
+use std::sync::Arc;
+
+use glommio::LocalExecutorBuilder;
+use hyper::service::service_fn;
+
+pub use crate::iiif::{Format, ImageRequest, Quality, Region, Rotation, Scale, Size};
+
+/// Decode the path of an image request as the server does, with any error as the client sees it.
+pub fn decode_image_request(path: &str) -> Result<ImageRequest, String> {
+    crate::http::verif_decode(path).map_err(|e| e.to_string())
+}
+
+/// Serve `path` from a single shard on the calling thread, on any address and with any limit.
+pub fn serve(addr: SocketAddr, max_connections: usize, path: Box<Path>) -> io::Result<()> {
+    let images = Arc::new(crate::resolve::DiskImageSource::new(path));
+    let executor = LocalExecutorBuilder::default()
+        .make()
+        .map_err(|e| io::Error::other(e.to_string()))?;
+
+    executor.run(async move {
+        crate::hyper_compat::serve_http2(
+            addr,
+            service_fn(move |req| crate::http::handle_request(req, images.clone())),
+            max_connections,
+        )
+        .await
+    })
+}
-- 
2.43.0


From a1f446f41ab2b0c18254d47c83903bfa08cff5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:57 +0000
Subject: [PATCH 06/81] fix: a failed accept must not end the listener

---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5177ee1..65b8c8c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -16,6 +16,7 @@ mod hyper_compat {
     use std::pin::Pin;
     use std::rc::Rc;
     use std::task::{Context, Poll};
+    use std::time::Duration;
     use std::{io, slice};
 
     use futures_lite::{AsyncRead, AsyncWrite, Future};
@@ -121,8 +122,10 @@ mod hyper_compat {
         let conn_control = Rc::new(Semaphore::new(max_connections as _));
         loop {
             match listener.accept().await {
-                Err(x) => {
-                    return Err(x.into());
+                Err(_) => {
+                    // A connection that could not be accepted (aborted by its peer, or no file
+                    // descriptor left for it) says nothing about later ones.
+                    glommio::timer::sleep(Duration::from_millis(10)).await;
                 }
                 Ok(stream) => {
                     stream.local_addr()?;
-- 
2.43.0


From c75c0d38a9fea303c3948d834f8ff475b04cc2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:13 +0000
Subject: [PATCH 07/81] fix: support the RPCL progression in tile-part
 accounting

---
 openjp2-rs/src/j2k.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 7fcf585..dfee6ec 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -168,6 +168,7 @@ pub(crate) enum ProgressionOrder {
     PCRL,
     RLCP,
     LRCP,
+    RPCL,
 }
 
 impl ProgressionOrder {
@@ -177,6 +178,7 @@ impl ProgressionOrder {
             OPJ_PCRL => Self::PCRL,
             OPJ_RLCP => Self::RLCP,
             OPJ_LRCP => Self::LRCP,
+            OPJ_RPCL => Self::RPCL,
             _ => Self::Unknown,
         }
     }
@@ -188,6 +190,7 @@ impl ProgressionOrder {
             Self::PCRL => &[Precinct, Component, Resolution, Layer],
             Self::RLCP => &[Resolution, Layer, Component, Precinct],
             Self::LRCP => &[Layer, Resolution, Component, Precinct],
+            Self::RPCL => &[Resolution, Precinct, Component, Layer],
             Self::Unknown => &[],
         }
     }
@@ -198,6 +201,7 @@ impl ProgressionOrder {
             Self::PCRL => "PCRL",
             Self::RLCP => "RLCP",
             Self::LRCP => "LRCP",
+            Self::RPCL => "RPCL",
             Self::Unknown => "",
         }
     }
-- 
2.43.0


From 753bf39345cb1e62f47852e5432101fcd8cdd5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:13 +0000
Subject: [PATCH 08/81] fix: keep the sign of signed samples when a tile is
 copied in for encoding

---
 openjp2-rs/src/tcd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 67d13cf..2cdc619 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -2881,7 +2881,7 @@ pub(crate) fn opj_tcd_copy_tile_data(p_tcd: &mut opj_tcd_t, mut p_src: &[u8]) ->
                     let (src, remain) = p_src.split_at(l_nb_elem);
                     if l_img_comp.sgnd != 0 {
                         for (src, dest) in src.iter().zip(l_dest.iter_mut()) {
-                            *dest = *src as OPJ_INT32;
+                            *dest = *src as i8 as OPJ_INT32;
                         }
                     } else {
                         for (src, dest) in src.iter().zip(l_dest.iter_mut()) {
@@ -2894,7 +2894,7 @@ pub(crate) fn opj_tcd_copy_tile_data(p_tcd: &mut opj_tcd_t, mut p_src: &[u8]) ->
                     let (src, remain) = p_src.split_at(l_nb_elem * 2);
                     if l_img_comp.sgnd != 0 {
                         for (src, dest) in src.chunks_exact(2).zip(l_dest.iter_mut()) {
-                            *dest = u16::from_ne_bytes([src[0], src[1]]) as OPJ_INT32;
+                            *dest = i16::from_ne_bytes([src[0], src[1]]) as OPJ_INT32;
                         }
                     } else {
                         for (src, dest) in src.chunks_exact(2).zip(l_dest.iter_mut()) {
-- 
2.43.0


From 0a7a6f1283914741be63bbbed2308c38017da07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 09/81] fix: encode tiles in which a subsampled component has
 no samples

---
 openjp2-rs/src/j2k.rs | 4 ++++
 openjp2-rs/src/tcd.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index dfee6ec..d80fc03 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -12447,6 +12447,10 @@ fn opj_j2k_get_tile_data(mut p_tcd: &mut opj_tcd_t, mut p_data: &mut [u8]) {
             let l_width = l_width as usize;
             let l_stride = l_stride as usize;
             let l_nb_elem = l_height * l_width;
+            if l_nb_elem == 0 {
+                // A subsampled component may have no sample in this tile.
+                continue;
+            }
             let mut l_src =
                 std::slice::from_raw_parts(l_src_ptr, l_nb_elem + (l_height * l_stride));
             match l_size_comp {
diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 2cdc619..0df669a 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -2875,6 +2875,10 @@ pub(crate) fn opj_tcd_copy_tile_data(p_tcd: &mut opj_tcd_t, mut p_src: &[u8]) ->
             if l_size_comp == 3u32 {
                 l_size_comp = 4 as OPJ_UINT32
             }
+            if l_nb_elem == 0 {
+                // A subsampled component may have no sample in this tile.
+                continue;
+            }
             let l_dest = std::slice::from_raw_parts_mut(l_tilec.data, l_nb_elem as usize);
             match l_size_comp {
                 1 => {
-- 
2.43.0


From 4c21d5b89373e56bb25b298d950bb146e075a39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:07 +0000
Subject: [PATCH 10/81] fix: do not run the forward wavelet on an empty
 resolution

---
 openjp2-rs/src/dwt.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/dwt.rs b/openjp2-rs/src/dwt.rs
index 04f524b..5cf763c 100644
--- a/openjp2-rs/src/dwt.rs
+++ b/openjp2-rs/src/dwt.rs
@@ -1203,6 +1203,10 @@ unsafe fn opj_dwt_encode_procedure(
         rh = ((*l_cur_res).y1 - (*l_cur_res).y0) as OPJ_UINT32;
         cas_row = (*l_cur_res).x0 & 1i32;
         cas_col = (*l_cur_res).y0 & 1i32;
+        if rw == 0 || rh == 0 {
+            // Nothing to transform at this or any lower resolution.
+            break;
+        }
         // Perform vertical pass
         j = 0 as OPJ_UINT32;
         while j + NB_ELTS_V8 - 1 < rw {
-- 
2.43.0


From 1cb8b59a74c3a399a54c69d1be43b59dc6b1cb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:35 +0000
Subject: [PATCH 11/81] fix: use the component's own row width when cutting
 tiles out of a subsampled image

---
 openjp2-rs/src/j2k.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index d80fc03..ea350e2 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -12402,7 +12402,7 @@ fn opj_get_tile_dimensions(
         *l_height = (l_tilec.y1 - l_tilec.y0) as OPJ_UINT32;
         *l_offset_x = opj_uint_ceildiv(l_image.x0, l_img_comp.dx);
         *l_offset_y = opj_uint_ceildiv(l_image.y0, l_img_comp.dy);
-        *l_image_width = opj_uint_ceildiv(l_image.x1 - l_image.x0, l_img_comp.dx);
+        *l_image_width = l_img_comp.w;
         *l_stride = (*l_image_width).wrapping_sub(*l_width);
         *l_tile_offset = (l_tilec.x0 as OPJ_UINT32)
             .wrapping_sub(*l_offset_x)
-- 
2.43.0


From 7e035038be9621d809c23035f6d3f2949252b179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:33 +0000
Subject: [PATCH 12/81] fix: count bypass bit-planes from the first coded one
 under a region of interest

---
 openjp2-rs/src/t1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/t1.rs b/openjp2-rs/src/t1.rs
index 79d3657..6b4975e 100644
--- a/openjp2-rs/src/t1.rs
+++ b/openjp2-rs/src/t1.rs
@@ -2336,7 +2336,7 @@ fn opj_t1_decode_cblk(
             let mut seg: *mut opj_tcd_seg_t =
                 &mut *(*cblk).segs.offset(segno as isize) as *mut opj_tcd_seg_t;
             // BYPASS mode
-            type_0 = if bpno_plus_one <= (*cblk).numbps as OPJ_INT32 - 4i32
+            type_0 = if bpno_plus_one <= roishift.wrapping_add((*cblk).numbps) as OPJ_INT32 - 4i32
                 && passtype < 2
                 && cblksty & 0x1 != 0
             {
-- 
2.43.0


From 0ea816b9aac210452564cff9978054d25db79b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:17 +0000
Subject: [PATCH 13/81] fix: split tile-parts at the requested progression
 level and write every packet

The position of the tile-part flag in the progression was always taken to be 0;
for position-based progressions the number of tile-parts was counted in precincts
although they are cut by position; with tile-parts LRCP and RLCP visited precinct
numbers that a resolution does not have; and the first position step of a tile that
does not start at a multiple of the step began before the tile.
---
 openjp2-rs/src/j2k.rs | 19 ++++++++++++++++---
 openjp2-rs/src/pi.rs  | 34 ++++++++++++++++++++++++----------
 2 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index ea350e2..fc3bef9 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -880,9 +880,21 @@ fn opj_j2k_get_num_tp(
                             as OPJ_UINT32
                     }
                     ProgressionStep::Precinct => {
-                        // precinct wise
-                        tpnum = (tpnum as core::ffi::c_uint).wrapping_mul((*l_current_poc).prcE)
-                            as OPJ_UINT32
+                        // precinct wise: opj_pi_create_encode() walks precinct numbers in LRCP and
+                        // RLCP, positions in the other progressions
+                        let nb_steps = match (*l_current_poc).prg as core::ffi::c_int {
+                            0 | 1 => (*l_current_poc).prcE,
+                            _ => {
+                                let (dx, dy) = ((*l_current_poc).dx, (*l_current_poc).dy);
+                                opj_uint_ceildiv((*l_current_poc).txE, dx)
+                                    .wrapping_sub((*l_current_poc).txS.wrapping_div(dx))
+                                    .wrapping_mul(
+                                        opj_uint_ceildiv((*l_current_poc).tyE, dy)
+                                            .wrapping_sub((*l_current_poc).tyS.wrapping_div(dy)),
+                                    )
+                            }
+                        };
+                        tpnum = (tpnum as core::ffi::c_uint).wrapping_mul(nb_steps) as OPJ_UINT32
                     }
                     ProgressionStep::Layer => {
                         // layer wise
@@ -896,6 +908,7 @@ fn opj_j2k_get_num_tp(
                     (*cp).m_specific_param.m_enc.m_tp_pos = i;
                     break;
                 }
+                i += 1;
             }
         } else {
             tpnum = 1 as OPJ_UINT32
diff --git a/openjp2-rs/src/pi.rs b/openjp2-rs/src/pi.rs
index fef2c2b..a13c0fa 100644
--- a/openjp2-rs/src/pi.rs
+++ b/openjp2-rs/src/pi.rs
@@ -160,7 +160,10 @@ unsafe fn opj_pi_next_lrcp(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     current_block = 10048703153582371463;
                 }
                 _ => {
-                    if (*pi).precno < (*pi).poc.precno1 {
+                    // With tile-parts precno1 is the largest number of precincts of any resolution
+                    if (*pi).precno < (*pi).poc.precno1
+                        && (*pi).precno < (*res).pw.wrapping_mul((*res).ph)
+                    {
                         index = (*pi)
                             .layno
                             .wrapping_mul((*pi).step_l)
@@ -272,7 +275,10 @@ unsafe fn opj_pi_next_rlcp(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     current_block = 10048703153582371463;
                 }
                 _ => {
-                    if (*pi).precno < (*pi).poc.precno1 {
+                    // With tile-parts precno1 is the largest number of precincts of any resolution
+                    if (*pi).precno < (*pi).poc.precno1
+                        && (*pi).precno < (*res).pw.wrapping_mul((*res).ph)
+                    {
                         index = (*pi)
                             .layno
                             .wrapping_mul((*pi).step_l)
@@ -2561,15 +2567,23 @@ pub(crate) unsafe fn opj_pi_create_encode(
                             (*pi.offset(pino as isize)).poc.precno1 = (*tcp).prc_t
                         }
                         _ => {
-                            (*pi.offset(pino as isize)).poc.tx0 = (*tcp)
-                                .tx0_t
-                                .wrapping_sub((*tcp).dx)
-                                .wrapping_sub((*tcp).tx0_t.wrapping_rem((*tcp).dx));
+                            // the first step starts at the tile border, not at a multiple of dx
+                            (*pi.offset(pino as isize)).poc.tx0 = opj_uint_max(
+                                (*tcp)
+                                    .tx0_t
+                                    .saturating_sub((*tcp).dx)
+                                    .saturating_sub((*tcp).tx0_t.wrapping_rem((*tcp).dx)),
+                                (*tcp).txS,
+                            );
                             (*pi.offset(pino as isize)).poc.tx1 = (*tcp).tx0_t;
-                            (*pi.offset(pino as isize)).poc.ty0 = (*tcp)
-                                .ty0_t
-                                .wrapping_sub((*tcp).dy)
-                                .wrapping_sub((*tcp).ty0_t.wrapping_rem((*tcp).dy));
+                            // the first step starts at the tile border, not at a multiple of dy
+                            (*pi.offset(pino as isize)).poc.ty0 = opj_uint_max(
+                                (*tcp)
+                                    .ty0_t
+                                    .saturating_sub((*tcp).dy)
+                                    .saturating_sub((*tcp).ty0_t.wrapping_rem((*tcp).dy)),
+                                (*tcp).tyS,
+                            );
                             (*pi.offset(pino as isize)).poc.ty1 = (*tcp).ty0_t
                         }
                     },
-- 
2.43.0


From 9e16b329fcfae8078b11617d9ae6aab0fa668508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:24 +0000
Subject: [PATCH 14/81] fix: visit every precinct position when subsampling
 factors do not divide each other

---
 openjp2-rs/src/math.rs |  8 ++++++++
 openjp2-rs/src/pi.rs   | 36 ++++++++++++++++++------------------
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/openjp2-rs/src/math.rs b/openjp2-rs/src/math.rs
index b077f2b..313e128 100644
--- a/openjp2-rs/src/math.rs
+++ b/openjp2-rs/src/math.rs
@@ -13,6 +13,14 @@ pub(crate) fn opj_uint_min(mut a: u32, mut b: u32) -> u32 {
     a.min(b)
 }
 
+#[inline]
+pub(crate) fn opj_uint_gcd(mut a: u32, mut b: u32) -> u32 {
+    while b != 0 {
+        (a, b) = (b, a % b);
+    }
+    a
+}
+
 #[inline]
 pub(crate) fn opj_uint_max(mut a: u32, mut b: u32) -> u32 {
     a.max(b)
diff --git a/openjp2-rs/src/pi.rs b/openjp2-rs/src/pi.rs
index a13c0fa..f8d98c9 100644
--- a/openjp2-rs/src/pi.rs
+++ b/openjp2-rs/src/pi.rs
@@ -403,7 +403,7 @@ unsafe fn opj_pi_next_rpcl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     (*pi).dx = if (*pi).dx == 0 {
                         dx
                     } else {
-                        opj_uint_min((*pi).dx, dx)
+                        opj_uint_gcd((*pi).dx, dx)
                     }
                 }
                 if (*res)
@@ -436,7 +436,7 @@ unsafe fn opj_pi_next_rpcl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     (*pi).dy = if (*pi).dy == 0 {
                         dy
                     } else {
-                        opj_uint_min((*pi).dy, dy)
+                        opj_uint_gcd((*pi).dy, dy)
                     }
                 }
                 resno += 1;
@@ -675,7 +675,7 @@ unsafe fn opj_pi_next_pcrl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     (*pi).dx = if (*pi).dx == 0 {
                         dx
                     } else {
-                        opj_uint_min((*pi).dx, dx)
+                        opj_uint_gcd((*pi).dx, dx)
                     }
                 }
                 if (*res)
@@ -708,7 +708,7 @@ unsafe fn opj_pi_next_pcrl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     (*pi).dy = if (*pi).dy == 0 {
                         dy
                     } else {
-                        opj_uint_min((*pi).dy, dy)
+                        opj_uint_gcd((*pi).dy, dy)
                     }
                 }
                 resno += 1;
@@ -973,7 +973,7 @@ unsafe fn opj_pi_next_cprl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                         (*pi).dx = if (*pi).dx == 0 {
                             dx
                         } else {
-                            opj_uint_min((*pi).dx, dx)
+                            opj_uint_gcd((*pi).dx, dx)
                         }
                     }
                     if (*res)
@@ -1006,7 +1006,7 @@ unsafe fn opj_pi_next_cprl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                         (*pi).dy = if (*pi).dy == 0 {
                             dy
                         } else {
-                            opj_uint_min((*pi).dy, dy)
+                            opj_uint_gcd((*pi).dy, dy)
                         }
                     }
                     resno += 1;
@@ -1235,9 +1235,9 @@ unsafe fn opj_get_encoding_parameters(
     // max precision is 0 (can only grow)
     *p_max_prec = 0 as OPJ_UINT32;
     *p_max_res = 0 as OPJ_UINT32;
-    // take the largest value for dx_min and dy_min
-    *p_dx_min = 0x7FFFFFFF as OPJ_UINT32;
-    *p_dy_min = 0x7FFFFFFF as OPJ_UINT32;
+    // the largest step that visits every precinct of every component
+    *p_dx_min = 0 as OPJ_UINT32;
+    *p_dy_min = 0 as OPJ_UINT32;
     compno = 0 as OPJ_UINT32;
     while compno < (*p_image).numcomps {
         // arithmetic variables to calculate
@@ -1280,12 +1280,12 @@ unsafe fn opj_get_encoding_parameters(
                 * ((1u64) << (l_pdx + (*l_tccp).numresolutions - 1 - resno));
             l_dy = (*l_img_comp).dy as u64
                 * ((1u64) << (l_pdy + (*l_tccp).numresolutions - 1u32 - resno));
-            // take the minimum size for dx for each comp and resolution
+            // every precinct position of each comp and resolution must be a multiple of dx
             if l_dx < u32::MAX as u64 {
-                *p_dx_min = opj_uint_min(*p_dx_min, l_dx as u32);
+                *p_dx_min = opj_uint_gcd(*p_dx_min, l_dx as u32);
             }
             if l_dy < u32::MAX as u64 {
-                *p_dy_min = opj_uint_min(*p_dy_min, l_dy as u32);
+                *p_dy_min = opj_uint_gcd(*p_dy_min, l_dy as u32);
             }
             // various calculations of extents
             l_level_no = (*l_tccp)
@@ -1394,9 +1394,9 @@ unsafe fn opj_get_all_encoding_parameters(
     // max precision and resolution is 0 (can only grow)
     *p_max_prec = 0 as OPJ_UINT32;
     *p_max_res = 0 as OPJ_UINT32;
-    // take the largest value for dx_min and dy_min
-    *p_dx_min = 0x7FFFFFFF as OPJ_UINT32;
-    *p_dy_min = 0x7FFFFFFF as OPJ_UINT32;
+    // the largest step that visits every precinct of every component
+    *p_dx_min = 0 as OPJ_UINT32;
+    *p_dy_min = 0 as OPJ_UINT32;
     compno = 0 as OPJ_UINT32;
     while compno < (*p_image).numcomps {
         // arithmetic variables to calculate
@@ -1458,8 +1458,8 @@ unsafe fn opj_get_all_encoding_parameters(
                 l_dx = (*l_img_comp)
                     .dx
                     .wrapping_mul((1u32) << l_pdx.wrapping_add(l_level_no));
-                // take the minimum size for l_dx for each comp and resolution
-                *p_dx_min = opj_uint_min(*p_dx_min, l_dx)
+                // every precinct position of each comp and resolution must be a multiple of dx
+                *p_dx_min = opj_uint_gcd(*p_dx_min, l_dx)
             }
             if l_pdy.wrapping_add(l_level_no) < 32u32
                 && (*l_img_comp).dy
@@ -1471,7 +1471,7 @@ unsafe fn opj_get_all_encoding_parameters(
                 l_dy = (*l_img_comp)
                     .dy
                     .wrapping_mul((1u32) << l_pdy.wrapping_add(l_level_no));
-                *p_dy_min = opj_uint_min(*p_dy_min, l_dy)
+                *p_dy_min = opj_uint_gcd(*p_dy_min, l_dy)
             }
             // various calculations of extents
             l_rx0 = opj_uint_ceildivpow2(l_tcx0, l_level_no);
-- 
2.43.0


From fc075345ede7bd7e80f967970ef1ec5175779ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:01 +0000
Subject: [PATCH 15/81] fix: never give a resolution above the lowest a
 precinct of size 1

---
 openjp2-rs/src/j2k.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index fc3bef9..d41fa27 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7570,20 +7570,22 @@ pub(crate) fn opj_j2k_setup_encoder(
                     assert!((*tccp_1).numresolutions > 0u32);
                     it_res = (*tccp_1).numresolutions as OPJ_INT32 - 1i32;
                     while it_res >= 0i32 {
+                        // a precinct of size 1 is only possible at the lowest resolution
+                        let min_exp = if it_res > 0i32 { 1i32 } else { 0i32 };
                         if p < parameters.res_spec {
                             if parameters.prcw_init[p as usize] < 1i32 {
                                 (*tccp_1).prcw[it_res as usize] = 1 as OPJ_UINT32
                             } else {
                                 (*tccp_1).prcw[it_res as usize] =
                                     opj_int_floorlog2(parameters.prcw_init[p as usize])
-                                        as OPJ_UINT32
+                                        .max(min_exp) as OPJ_UINT32
                             }
                             if parameters.prch_init[p as usize] < 1i32 {
                                 (*tccp_1).prch[it_res as usize] = 1 as OPJ_UINT32
                             } else {
                                 (*tccp_1).prch[it_res as usize] =
                                     opj_int_floorlog2(parameters.prch_init[p as usize])
-                                        as OPJ_UINT32
+                                        .max(min_exp) as OPJ_UINT32
                             }
                         } else {
                             let mut res_spec = parameters.res_spec;
@@ -7599,13 +7601,13 @@ pub(crate) fn opj_j2k_setup_encoder(
                                 (*tccp_1).prcw[it_res as usize] = 1 as OPJ_UINT32
                             } else {
                                 (*tccp_1).prcw[it_res as usize] =
-                                    opj_int_floorlog2(size_prcw) as OPJ_UINT32
+                                    opj_int_floorlog2(size_prcw).max(min_exp) as OPJ_UINT32
                             }
                             if size_prch < 1i32 {
                                 (*tccp_1).prch[it_res as usize] = 1 as OPJ_UINT32
                             } else {
                                 (*tccp_1).prch[it_res as usize] =
-                                    opj_int_floorlog2(size_prch) as OPJ_UINT32
+                                    opj_int_floorlog2(size_prch).max(min_exp) as OPJ_UINT32
                             }
                         }
                         p += 1;
-- 
2.43.0


From fb5423ef4d70a65ae9545e51761c2cc9a6e253b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:01 +0000
Subject: [PATCH 16/81] fix: do not apply the component transform to components
 of different precision

---
 openjp2-rs/src/j2k.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index d41fa27..90a4ef4 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7525,6 +7525,17 @@ pub(crate) fn opj_j2k_setup_encoder(
               "Cannot perform MCT on components with different sizes. Disabling MCT.\n",
             ); // 0 => one precinct || 1 => custom precinct
                         (*tcp).mct = 0 as OPJ_UINT32
+                    } else if (*image.comps.offset(0)).prec != (*image.comps.offset(1)).prec
+                        || (*image.comps.offset(0)).prec != (*image.comps.offset(2)).prec
+                        || (*image.comps.offset(0)).sgnd != (*image.comps.offset(1)).sgnd
+                        || (*image.comps.offset(0)).sgnd != (*image.comps.offset(2)).sgnd
+                    {
+                        event_msg!(
+              p_manager,
+              EVT_WARNING,
+              "Cannot perform MCT on components with different precisions. Disabling MCT.\n",
+            );
+                        (*tcp).mct = 0 as OPJ_UINT32
                     }
                 }
                 i = 0 as OPJ_UINT32;
-- 
2.43.0


From 403a3f673faff9a01d781a02ee9955e428bde3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:01 +0000
Subject: [PATCH 17/81] fix: take each progression order change from its own
 entry

---
 openjp2-rs/src/j2k.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 90a4ef4..da64af4 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7380,20 +7380,20 @@ pub(crate) fn opj_j2k_setup_encoder(
                         let mut tcp_poc: *mut opj_poc_t =
                             &mut *(*tcp).pocs.as_mut_ptr().offset(numpocs_tile as isize)
                                 as *mut opj_poc_t;
-                        if parameters.POC[numpocs_tile as usize].compno0 >= image.numcomps {
+                        if parameters.POC[i as usize].compno0 >= image.numcomps {
                             event_msg!(p_manager, EVT_ERROR, "Invalid compno0 for POC %d\n", i,);
                             return 0i32;
                         }
-                        (*tcp_poc).resno0 = parameters.POC[numpocs_tile as usize].resno0;
-                        (*tcp_poc).compno0 = parameters.POC[numpocs_tile as usize].compno0;
-                        (*tcp_poc).layno1 = parameters.POC[numpocs_tile as usize].layno1;
-                        (*tcp_poc).resno1 = parameters.POC[numpocs_tile as usize].resno1;
+                        (*tcp_poc).resno0 = parameters.POC[i as usize].resno0;
+                        (*tcp_poc).compno0 = parameters.POC[i as usize].compno0;
+                        (*tcp_poc).layno1 = parameters.POC[i as usize].layno1;
+                        (*tcp_poc).resno1 = parameters.POC[i as usize].resno1;
                         (*tcp_poc).compno1 = opj_uint_min(
-                            parameters.POC[numpocs_tile as usize].compno1,
+                            parameters.POC[i as usize].compno1,
                             image.numcomps,
                         );
-                        (*tcp_poc).prg1 = parameters.POC[numpocs_tile as usize].prg1;
-                        (*tcp_poc).tile = parameters.POC[numpocs_tile as usize].tile;
+                        (*tcp_poc).prg1 = parameters.POC[i as usize].prg1;
+                        (*tcp_poc).tile = parameters.POC[i as usize].tile;
                         numpocs_tile += 1;
                     }
                     i += 1;
-- 
2.43.0


From 2d428a4f9931a842b196f806adaf58d10128e96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:01 +0000
Subject: [PATCH 18/81] fix: refuse encodes that would need more than 255
 tile-parts in a tile

---
 openjp2-rs/src/j2k.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index da64af4..be0b7ee 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -932,7 +932,7 @@ fn opj_j2k_calculate_tp(
     mut cp: *mut opj_cp_t,
     mut p_nb_tiles: *mut OPJ_UINT32,
     mut image: &mut opj_image,
-    mut _p_manager: &mut opj_event_mgr,
+    mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     unsafe {
     let mut pino: OPJ_UINT32 = 0;
@@ -992,6 +992,16 @@ fn opj_j2k_calculate_tp(
         cur_totnum_tp = (cur_totnum_tp as core::ffi::c_uint).wrapping_add(tp_num) as OPJ_UINT32;
         pino += 1;
       }
+      if cur_totnum_tp > 255 {
+        event_msg!(
+          p_manager,
+          EVT_ERROR,
+          "Tile %d would need %d tile-parts, at most 255 are possible\n",
+          tileno,
+          cur_totnum_tp,
+        );
+        return 0i32;
+      }
       (*tcp).m_nb_tile_parts = cur_totnum_tp;
       tcp = tcp.offset(1);
       tileno += 1;
-- 
2.43.0


From e23c2956880d0c95bebb7bbe9af4f1ab7c7ed25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:01 +0000
Subject: [PATCH 19/81] fix: leave room for terminating every pass of a small
 code-block

---
 openjp2-rs/src/tcd.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 0df669a..654d377 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -1427,9 +1427,10 @@ unsafe fn opj_tcd_code_block_enc_allocate_data(
     // and +33 for https://github.com/uclouvain/openjpeg/issues/1283 (-M 4)
     // and +63 for https://github.com/uclouvain/openjpeg/issues/1283 (-M 4 -IMF 2K)
     // and +74 for https://github.com/uclouvain/openjpeg/issues/1283 (-M 4 -n 8 -s 7,7 -I)
+    // and 5 bytes for the flush of each of up to 3*31 passes (small code-blocks with -M 4)
     // TODO: is there a theoretical upper-bound for the compressed code
     // block size ?
-    l_data_size = (74u32).wrapping_add(
+    l_data_size = (74u32 + 5 * 93).wrapping_add(
         (((*p_code_block).x1 - (*p_code_block).x0)
             * ((*p_code_block).y1 - (*p_code_block).y0)
             * core::mem::size_of::<OPJ_UINT32>() as OPJ_INT32) as OPJ_UINT32,
-- 
2.43.0


From 196d28baad86c0d2dd1c6f46f1c050d4b5167346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:12 +0000
Subject: [PATCH 20/81] fix: do not panic on a tile in which no component has a
 sample

---
 openjp2-rs/src/j2k.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index be0b7ee..17b4812 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -12253,7 +12253,8 @@ pub(crate) fn opj_j2k_encode(
                 j += 1;
             }
             l_current_tile_size = opj_tcd_get_encoder_input_buffer_size(&mut *p_j2k.m_tcd);
-            if l_reuse_data == 0 {
+            // nothing to copy when no component has a sample in the tile
+            if l_reuse_data == 0 && l_current_tile_size != 0 {
                 if l_current_tile_size > l_max_tile_size {
                     let mut l_new_current_data =
                         opj_realloc(l_current_data as *mut core::ffi::c_void, l_current_tile_size)
-- 
2.43.0


From bde92430aa3532fec370e81f51fa3a992a9aef1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:20 +0000
Subject: [PATCH 21/81] fix: write every packet exactly once when progressions
 follow each other

---
 openjp2-rs/src/pi.rs | 7 +------
 openjp2-rs/src/t2.rs | 7 +++++++
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/openjp2-rs/src/pi.rs b/openjp2-rs/src/pi.rs
index f8d98c9..9c5640b 100644
--- a/openjp2-rs/src/pi.rs
+++ b/openjp2-rs/src/pi.rs
@@ -1656,12 +1656,7 @@ unsafe fn opj_pi_update_encode_poc_and_final(
         (*l_current_poc).layE = (*l_current_poc).layno1;
         (*l_current_poc).prg = (*l_current_poc).prg1;
         (*l_current_poc).prcS = 0 as OPJ_UINT32;
-        // special treatment here different from the first element
-        (*l_current_poc).layS = if (*l_current_poc).layE > (*l_current_poc.offset(-1)).layE {
-            (*l_current_poc).layE
-        } else {
-            0u32
-        };
+        (*l_current_poc).layS = 0 as OPJ_UINT32;
         (*l_current_poc).prcE = p_max_prec;
         (*l_current_poc).txS = p_tx0;
         (*l_current_poc).txE = p_tx1;
diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index 202c528..35a0d99 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -220,6 +220,13 @@ pub(crate) unsafe fn opj_t2_encode_packets(
             compno += 1;
         }
     } else {
+        // The packets of the progressions before this one are written already
+        poc = 0 as OPJ_UINT32;
+        while poc < p_pino {
+            opj_pi_create_encode(l_pi, l_cp, p_tile_no, poc, 0u32, p_tp_pos, THRESH_CALC);
+            while opj_pi_next(l_pi.offset(poc as isize)) != 0 {}
+            poc += 1;
+        }
         opj_pi_create_encode(l_pi, l_cp, p_tile_no, p_pino, p_tp_num, p_tp_pos, p_t2_mode);
         l_current_pi = &mut *l_pi.offset(p_pino as isize) as *mut opj_pi_iterator_t;
         if (*l_current_pi).poc.prg as core::ffi::c_int == OPJ_PROG_UNKNOWN as core::ffi::c_int {
-- 
2.43.0


From ecc32d624bb912f697aeb569e0a79f22547e83f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:28 +0000
Subject: [PATCH 22/81] fix: divide each progression of a tile into its own
 tile-parts

---
 openjp2-rs/src/j2k.rs | 14 ++++++--------
 openjp2-rs/src/pi.rs  |  1 +
 openjp2-rs/src/tcd.rs |  2 +-
 3 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 17b4812..8d6ea22 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -864,20 +864,18 @@ fn opj_j2k_get_num_tp(
         l_current_poc = &mut *(*tcp).pocs.as_mut_ptr().offset(pino as isize) as *mut opj_poc_t;
         assert!(!l_current_poc.is_null());
         // get the progression order as a character string
-        let prog = opj_j2k_convert_progression_order((*tcp).prg);
+        let prog = opj_j2k_convert_progression_order((*l_current_poc).prg);
         assert!(prog != ProgressionOrder::Unknown);
         if (*cp).m_specific_param.m_enc.m_tp_on {
             for step in prog.get_order() {
                 match step {
                     ProgressionStep::Component => {
                         // component wise
-                        tpnum = (tpnum as core::ffi::c_uint).wrapping_mul((*l_current_poc).compE)
-                            as OPJ_UINT32
+                        tpnum = tpnum.wrapping_mul((*l_current_poc).compE - (*l_current_poc).compS)
                     }
                     ProgressionStep::Resolution => {
                         // resolution wise
-                        tpnum = (tpnum as core::ffi::c_uint).wrapping_mul((*l_current_poc).resE)
-                            as OPJ_UINT32
+                        tpnum = tpnum.wrapping_mul((*l_current_poc).resE - (*l_current_poc).resS)
                     }
                     ProgressionStep::Precinct => {
                         // precinct wise: opj_pi_create_encode() walks precinct numbers in LRCP and
@@ -898,8 +896,7 @@ fn opj_j2k_get_num_tp(
                     }
                     ProgressionStep::Layer => {
                         // layer wise
-                        tpnum = (tpnum as core::ffi::c_uint).wrapping_mul((*l_current_poc).layE)
-                            as OPJ_UINT32
+                        tpnum = tpnum.wrapping_mul((*l_current_poc).layE - (*l_current_poc).layS)
                     }
                     ProgressionStep::Unknown => {}
                 }
@@ -12714,7 +12711,8 @@ fn opj_j2k_write_first_tile_part(
         l_tcd = p_j2k.m_tcd;
         l_cp = &mut p_j2k.m_cp;
         (*l_tcd).cur_pino = 0 as OPJ_UINT32;
-        // Get number of tile parts
+        // Get where to divide into tile parts
+        opj_j2k_get_num_tp(l_cp, 0 as OPJ_UINT32, p_j2k.m_current_tile_number);
         p_j2k
             .m_specific_param
             .m_encoder
diff --git a/openjp2-rs/src/pi.rs b/openjp2-rs/src/pi.rs
index 9c5640b..bd9411c 100644
--- a/openjp2-rs/src/pi.rs
+++ b/openjp2-rs/src/pi.rs
@@ -2383,6 +2383,7 @@ pub(crate) unsafe fn opj_pi_initialise_encode(
             l_tccp = l_tccp.offset(1);
             compno += 1;
         }
+        (*l_current_pi).tp_on = (*l_pi).tp_on;
         // special treatment
         (*l_current_pi).include = (*l_current_pi.offset(-1)).include;
         (*l_current_pi).include_size = (*l_current_pi.offset(-1)).include_size;
diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 654d377..ce28fd3 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -2797,7 +2797,7 @@ unsafe fn opj_tcd_t2_encode(
         p_cstr_info,
         p_marker_info,
         (*p_tcd).tp_num,
-        (*p_tcd).tp_pos,
+        (*(*p_tcd).cp).m_specific_param.m_enc.m_tp_pos,
         (*p_tcd).cur_pino,
         FINAL_PASS,
         p_manager,
-- 
2.43.0


From d9424b7c44907452d0b7f2b1c650cb235cf6bd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:12 +0000
Subject: [PATCH 23/81] fix: keep the layer end of a POC marker that precedes
 COD

---
 openjp2-rs/src/j2k.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 8d6ea22..5815439 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -2752,8 +2752,8 @@ fn opj_j2k_read_poc(
             opj_read_bytes(p_header_data, &mut (*l_current_poc).compno0, l_comp_room);
             p_header_data = p_header_data.offset(l_comp_room as isize);
             opj_read_bytes(p_header_data, &mut (*l_current_poc).layno1, 2 as OPJ_UINT32);
-            // make sure layer end is in acceptable bounds
-            (*l_current_poc).layno1 = opj_uint_min((*l_current_poc).layno1, (*l_tcp).numlayers); // REpoc_i
+            // the layer end is bounded when the progression is used: the COD marker may be still to come
+            // REpoc_i
             p_header_data = p_header_data.offset(2); // CEpoc_i
             opj_read_bytes(p_header_data, &mut (*l_current_poc).resno1, 1 as OPJ_UINT32); // Ppoc_i
             p_header_data = p_header_data.offset(1);
-- 
2.43.0


From 895f64b203f52326ca1000ffb0857246d05fde5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:12 +0000
Subject: [PATCH 24/81] fix: decode tiles whose packets are all empty when
 headers are packed

---
 openjp2-rs/src/j2k.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 5815439..cba081f 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -4381,7 +4381,15 @@ fn opj_j2k_read_sod(
                 return 0i32;
             }
         } else {
-            l_sot_length_pb_detected = 1i32
+            l_sot_length_pb_detected = 1i32;
+            // With packed packet headers a tile of empty packets has no data at all
+            if (*l_current_data).is_null() && (p_j2k.m_cp.ppm || (*l_tcp).ppt) {
+                *l_current_data = opj_calloc(1, 2) as *mut OPJ_BYTE;
+                if (*l_current_data).is_null() {
+                    event_msg!(p_manager, EVT_ERROR, "Not enough memory to decode tile\n",);
+                    return 0i32;
+                }
+            }
         }
         // Index
         l_cstr_index = p_j2k.cstr_index;
-- 
2.43.0


From afc5b8edeb486cdabb6478f72cbf6b3041d73f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 25/81] fix: refuse decoder calls once there is no image to
 decode

After a failed decode, or before the main header, the codec holds no image;
setting an area, reading tiles and asking for the codestream information
dereferenced a null pointer.
---
 openjp2-rs/src/j2k.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index cba081f..a8ae56e 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9105,6 +9105,10 @@ pub(crate) fn opj_j2k_read_tile_header(
         let mut l_tcp = std::ptr::null_mut::<opj_tcp_t>();
         let l_nb_tiles = p_j2k.m_cp.tw.wrapping_mul(p_j2k.m_cp.th);
         // preconditions
+        // Without an image the header was not read, or an earlier decoding failed
+        if p_j2k.m_private_image.is_null() {
+            return false;
+        }
 
         // Reach the End Of Codestream ?
         if p_j2k.m_specific_param.m_decoder.m_state == J2KState::EOC {
@@ -9497,6 +9501,7 @@ pub(crate) fn opj_j2k_decode_tile(
 
         if p_j2k.m_specific_param.m_decoder.m_state & J2KState::DATA == J2KState::NONE
             || p_tile_index != p_j2k.m_current_tile_number
+            || p_j2k.m_private_image.is_null()
         {
             return 0i32;
         }
@@ -9948,6 +9953,15 @@ pub(crate) fn opj_j2k_set_decode_area(
         let mut l_image = p_j2k.m_private_image;
         let mut ret: OPJ_BOOL = 0;
         let mut it_comp: OPJ_UINT32 = 0;
+        // Without an image the header was not read, or an earlier decoding failed
+        if l_image.is_null() {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "There is no image to decode: read the main header first.\n",
+            );
+            return 0i32;
+        }
         if !(p_j2k.m_cp.tw == 1u32
             && p_j2k.m_cp.th == 1u32
             && !(*p_j2k.m_cp.tcps.offset(0)).m_data.is_null())
@@ -11255,6 +11269,9 @@ pub(crate) fn j2k_dump_image_comp_header(
 pub(crate) fn j2k_get_cstr_info(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream_info_v2_t {
     unsafe {
         let mut compno: OPJ_UINT32 = 0;
+        if p_j2k.m_private_image.is_null() {
+            return std::ptr::null_mut::<opj_codestream_info_v2_t>();
+        }
         let mut numcomps = (*p_j2k.m_private_image).numcomps;
         let mut l_default_tile = std::ptr::null_mut::<opj_tcp_t>();
         let mut cstr_info =
@@ -11998,6 +12015,15 @@ pub(crate) fn opj_j2k_get_tile(
         let mut l_tile_x: OPJ_UINT32 = 0;
         let mut l_tile_y: OPJ_UINT32 = 0;
         let mut l_img_comp = std::ptr::null_mut::<opj_image_comp_t>();
+        // Without an image the header was not read, or an earlier decoding failed
+        if p_j2k.m_private_image.is_null() {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "There is no image to decode: read the main header first.\n",
+            );
+            return 0i32;
+        }
         if p_image.numcomps < (*p_j2k.m_private_image).numcomps {
             event_msg!(p_manager, EVT_ERROR, "Image has less components than codestream.\n",);
             return 0i32;
-- 
2.43.0


From bfa641c28e83ea440b7d072fc4c315cefd1e5b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 26/81] fix: keep the decode area in force when a new one is
 refused

A refused opj_set_decode_area left the tile window and the image bounds half
changed, and a following decode used the mixture.
---
 openjp2-rs/src/j2k.rs | 46 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index a8ae56e..ff5a0b4 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9947,6 +9947,52 @@ pub(crate) fn opj_j2k_set_decode_area(
     mut p_end_x: OPJ_INT32,
     mut p_end_y: OPJ_INT32,
     mut p_manager: &mut opj_event_mgr,
+) -> OPJ_BOOL {
+    // A refused area leaves the area in force, and the image, as they were
+    let l_decoder = unsafe { &p_j2k.m_specific_param.m_decoder };
+    let l_tiles = (
+        l_decoder.m_start_tile_x,
+        l_decoder.m_start_tile_y,
+        l_decoder.m_end_tile_x,
+        l_decoder.m_end_tile_y,
+    );
+    let l_bounds = (p_image.x0, p_image.y0, p_image.x1, p_image.y1);
+    let l_comps = p_image.comps().map(|comps| {
+        comps
+            .iter()
+            .map(|comp| (comp.x0, comp.y0, comp.w, comp.h, comp.factor))
+            .collect::<Vec<_>>()
+    });
+    if opj_j2k_apply_decode_area(
+        p_j2k, p_image, p_start_x, p_start_y, p_end_x, p_end_y, p_manager,
+    ) != 0
+    {
+        return 1i32;
+    }
+    let l_decoder = unsafe { &mut p_j2k.m_specific_param.m_decoder };
+    (
+        l_decoder.m_start_tile_x,
+        l_decoder.m_start_tile_y,
+        l_decoder.m_end_tile_x,
+        l_decoder.m_end_tile_y,
+    ) = l_tiles;
+    (p_image.x0, p_image.y0, p_image.x1, p_image.y1) = l_bounds;
+    if let (Some(comps), Some(l_comps)) = (p_image.comps_mut(), l_comps) {
+        for (comp, l_comp) in comps.iter_mut().zip(l_comps) {
+            (comp.x0, comp.y0, comp.w, comp.h, comp.factor) = l_comp;
+        }
+    }
+    0i32
+}
+
+fn opj_j2k_apply_decode_area(
+    mut p_j2k: &mut opj_j2k,
+    mut p_image: &mut opj_image,
+    mut p_start_x: OPJ_INT32,
+    mut p_start_y: OPJ_INT32,
+    mut p_end_x: OPJ_INT32,
+    mut p_end_y: OPJ_INT32,
+    mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     unsafe {
         let mut l_cp: *mut opj_cp_t = &mut p_j2k.m_cp;
-- 
2.43.0


From 07788a3c975ee2e063d7ebc218452341e79fc735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 27/81] fix: announce the size components have at reduced
 resolution

opj_read_header rounded the difference of the component's corners instead of
the corners themselves, so images with an offset got sizes that the decoded
components do not have.
---
 openjp2-rs/src/image.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/image.rs b/openjp2-rs/src/image.rs
index 266db7d..63cc651 100644
--- a/openjp2-rs/src/image.rs
+++ b/openjp2-rs/src/image.rs
@@ -399,8 +399,10 @@ pub(crate) fn opj_image_comp_header_update(
             let l_comp_y0 = opj_uint_ceildiv(l_y0, comp.dy);
             let l_comp_x1 = opj_uint_ceildiv(l_x1, comp.dx);
             let l_comp_y1 = opj_uint_ceildiv(l_y1, comp.dy);
-            let l_width = opj_uint_ceildivpow2(l_comp_x1.wrapping_sub(l_comp_x0), comp.factor);
-            let l_height = opj_uint_ceildivpow2(l_comp_y1.wrapping_sub(l_comp_y0), comp.factor);
+            let l_width = opj_uint_ceildivpow2(l_comp_x1, comp.factor)
+                .wrapping_sub(opj_uint_ceildivpow2(l_comp_x0, comp.factor));
+            let l_height = opj_uint_ceildivpow2(l_comp_y1, comp.factor)
+                .wrapping_sub(opj_uint_ceildivpow2(l_comp_y0, comp.factor));
             comp.w = l_width;
             comp.h = l_height;
             comp.x0 = l_comp_x0;
-- 
2.43.0


From 1253376d9ff5db6298617c9cda64a4b34ef44a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:52 +0000
Subject: [PATCH 28/81] fix: decode tiles that have no samples at the reduced
 resolution

Reading such a tile divided by its width or height of zero, or ran the inverse
transform on a null pointer.
---
 openjp2-rs/src/dwt.rs | 7 +++++--
 openjp2-rs/src/tcd.rs | 7 ++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/openjp2-rs/src/dwt.rs b/openjp2-rs/src/dwt.rs
index 5cf763c..6119037 100644
--- a/openjp2-rs/src/dwt.rs
+++ b/openjp2-rs/src/dwt.rs
@@ -1467,7 +1467,8 @@ unsafe fn opj_dwt_decode_tile(
 
     // Not entirely sure for the return code of w == 0 which is triggered per
     // https://github.com/uclouvain/openjpeg/issues/1505
-    if numres == 1 || w == 0 {
+    let mut tr_max = (*tilec).resolutions.offset((*tilec).minimum_num_resolutions as isize - 1);
+    if numres == 1 || w == 0 || (*tr_max).y0 == (*tr_max).y1 {
         return 1i32;
     }
     h_mem_size = opj_dwt_max_resolution(tr, numres) as OPJ_SIZE_T;
@@ -2493,7 +2494,9 @@ unsafe fn opj_dwt_decode_tile_97(
         .offset((*tilec).minimum_num_resolutions.wrapping_sub(1u32) as isize))
     .x0) as OPJ_UINT32;
     let mut l_data_size: OPJ_SIZE_T = 0;
-    if numres == 1u32 {
+    let mut res_max = (*tilec).resolutions.offset((*tilec).minimum_num_resolutions as isize - 1);
+    // No samples at this resolution
+    if numres == 1u32 || w == 0 || (*res_max).y0 == (*res_max).y1 {
         return 1i32;
     }
     l_data_size = opj_dwt_max_resolution(res, numres) as OPJ_SIZE_T;
diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index ce28fd3..d411f84 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -1541,7 +1541,8 @@ pub(crate) unsafe fn opj_tcd_get_decoded_tile_size(
             w = ((*l_res).x1 - (*l_res).x0) as OPJ_UINT32;
             h = ((*l_res).y1 - (*l_res).y0) as OPJ_UINT32
         }
-        if h > 0u32
+        if w > 0u32
+            && h > 0u32
             && (2147483647u32)
                 .wrapping_mul(2u32)
                 .wrapping_add(1u32)
@@ -1974,6 +1975,10 @@ pub(crate) fn opj_tcd_update_tile_data(p_tcd: &mut opj_tcd_t, mut p_dest: &mut [
                 l_size_comp = 4 as OPJ_UINT32
             }
             let l_nb_elem = l_height * l_width;
+            // No samples at this resolution
+            if l_nb_elem == 0 {
+                continue;
+            }
             let mut l_src =
                 std::slice::from_raw_parts(l_src_data, l_nb_elem + (l_height * l_stride));
             match l_size_comp {
-- 
2.43.0


From ee6af45ab28b03b752098215df9784d18716c442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:52 +0000
Subject: [PATCH 29/81] fix: refuse tile data of components that were not
 decoded

opj_decode_tile_data after opj_set_decoded_components read through a null
pointer.
---
 openjp2-rs/src/tcd.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index d411f84..3e598c8 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -1979,6 +1979,10 @@ pub(crate) fn opj_tcd_update_tile_data(p_tcd: &mut opj_tcd_t, mut p_dest: &mut [
             if l_nb_elem == 0 {
                 continue;
             }
+            // Components left out by opj_set_decoded_components() have no data
+            if l_src_data.is_null() {
+                return 0i32;
+            }
             let mut l_src =
                 std::slice::from_raw_parts(l_src_data, l_nb_elem + (l_height * l_stride));
             match l_size_comp {
-- 
2.43.0


From 96cf6bdd0b1d743812ea9045e3e1fd0c3f4d7485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 30/81] fix: keep the resolution factor in force when a new one
 is refused

opj_set_decoded_resolution_factor stored a factor larger than the codestream
allows before refusing it; a following decode crashed.
---
 openjp2-rs/src/j2k.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index ff5a0b4..10f6545 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -12189,7 +12189,6 @@ pub(crate) fn opj_j2k_set_decoded_resolution_factor(
 ) -> OPJ_BOOL {
     unsafe {
         let mut it_comp: OPJ_UINT32 = 0;
-        p_j2k.m_cp.m_specific_param.m_dec.m_reduce = res_factor;
         if !p_j2k.m_private_image.is_null()
             && !(*p_j2k.m_private_image).comps.is_null()
             && !p_j2k.m_specific_param.m_decoder.m_default_tcp.is_null()
@@ -12211,6 +12210,11 @@ pub(crate) fn opj_j2k_set_decoded_resolution_factor(
           );
                     return 0i32;
                 }
+                it_comp += 1;
+            }
+            p_j2k.m_cp.m_specific_param.m_dec.m_reduce = res_factor;
+            it_comp = 0 as OPJ_UINT32;
+            while it_comp < (*p_j2k.m_private_image).numcomps {
                 (*(*p_j2k.m_private_image).comps.offset(it_comp as isize)).factor = res_factor;
                 it_comp += 1;
             }
-- 
2.43.0


From 7c03fa26fd30c64c5086156c008cf87b2d727f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 31/81] fix: refuse decoder parameters once the header has been
 read

opj_setup_decoder then changed the reduction under the tiles already laid out
and decoding crashed.
---
 openjp2-rs/src/codec.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/openjp2-rs/src/codec.rs b/openjp2-rs/src/codec.rs
index 6e68959..53ce72c 100644
--- a/openjp2-rs/src/codec.rs
+++ b/openjp2-rs/src/codec.rs
@@ -170,6 +170,19 @@ impl Codec {
         );
             }
             CodecType::Decoder(dec) => {
+                // The header is read and the tiles are laid out with these parameters
+                let header_read = match dec {
+                    CodecFormat::J2K(dec) => !dec.m_private_image.is_null(),
+                    CodecFormat::JP2(dec) => !dec.j2k.m_private_image.is_null(),
+                };
+                if header_read {
+                    event_msg!(
+                        &mut self.m_event_mgr,
+                        EVT_ERROR,
+                        "The decoder has to be set up before the header is read.\n",
+                    );
+                    return 0i32;
+                }
                 match dec {
                     CodecFormat::J2K(dec) => {
                         opj_j2k_setup_decoder(dec, parameters);
-- 
2.43.0


From dee968e25f6d2f8e4cbf57527991afe9dd5e0557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 32/81] fix: component selection after a decode aborted on data
 it frees anyway

---
 openjp2-rs/src/j2k.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 10f6545..bb49cc0 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -11960,9 +11960,6 @@ fn opj_j2k_move_data_from_codec_to_output_image(
             }
             compno = 0 as OPJ_UINT32;
             while compno < p_image.numcomps {
-                assert!((*(*p_j2k.m_output_image).comps.offset(compno as isize))
-                    .data
-                    .is_null());
                 opj_image_data_free(
                     (*(*p_j2k.m_output_image).comps.offset(compno as isize)).data
                         as *mut core::ffi::c_void,
-- 
2.43.0


From f477dc7079a94cc017e2379e3795283526832f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 33/81] fix: refuse to decode into an image with fewer
 components than the codestream

---
 openjp2-rs/src/j2k.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index bb49cc0..f3e961a 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -11997,6 +11997,12 @@ pub(crate) fn opj_j2k_decode(
     mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     unsafe {
+        if !p_j2k.m_private_image.is_null()
+            && p_image.numcomps < (*p_j2k.m_private_image).numcomps
+        {
+            event_msg!(p_manager, EVT_ERROR, "Image has less components than codestream.\n",);
+            return 0i32;
+        }
         // Heuristics to detect sequence opj_read_header(), opj_set_decoded_resolution_factor()
         // and finally opj_decode_image() without manual setting of comps[].factor
         // We could potentially always execute it, if we don't allow people to do
-- 
2.43.0


From 56ecdbfda4156a6d7676e3d250e2be5824fe440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 34/81] fix: follow every change of the resolution factor made
 before decoding

---
 openjp2-rs/src/j2k.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index f3e961a..fba41fe 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -12007,13 +12007,12 @@ pub(crate) fn opj_j2k_decode(
         // and finally opj_decode_image() without manual setting of comps[].factor
         // We could potentially always execute it, if we don't allow people to do
         // opj_read_header(), modify x0,y0,x1,y1 of returned image an call opj_decode_image()
-        if p_j2k.m_cp.m_specific_param.m_dec.m_reduce > 0u32
-            && !p_j2k.m_private_image.is_null()
+        if !p_j2k.m_private_image.is_null()
             && (*p_j2k.m_private_image).numcomps > 0u32
             && (*(*p_j2k.m_private_image).comps.offset(0)).factor
                 == p_j2k.m_cp.m_specific_param.m_dec.m_reduce
             && p_image.numcomps > 0u32
-            && (*p_image.comps.offset(0)).factor == 0u32
+            && (*p_image.comps.offset(0)).factor != p_j2k.m_cp.m_specific_param.m_dec.m_reduce
             && (*p_image.comps.offset(0)).data.is_null()
         {
             let mut it_comp: OPJ_UINT32 = 0;
-- 
2.43.0


From e5eb4e84da7d92af835535f45c28e5a3a73b5e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 35/81] fix: refuse to encode or to end a compression that was
 not started

---
 openjp2-rs/src/j2k.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index fba41fe..e1fd3ff 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -12399,6 +12399,10 @@ pub(crate) fn opj_j2k_end_compress(
     mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     let mut procedure_list = opj_j2k_proc_list_t::new();
+    if p_j2k.m_tcd.is_null() {
+        event_msg!(p_manager, EVT_ERROR, "The compression was not started.\n",);
+        return 0i32;
+    }
     // customization of the encoding
     if opj_j2k_setup_end_compress(p_j2k, &mut procedure_list, p_manager) == 0 {
         return 0i32;
@@ -12468,6 +12472,10 @@ fn opj_j2k_pre_write_tile(
     mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     unsafe {
+        if p_j2k.m_tcd.is_null() {
+            event_msg!(p_manager, EVT_ERROR, "The compression was not started.\n",);
+            return 0i32;
+        }
         if p_tile_index != p_j2k.m_current_tile_number {
             event_msg!(p_manager, EVT_ERROR, "The given tile index does not match.",);
             return 0i32;
-- 
2.43.0


From c502f2cd4d3d735eba15c8999fa90b23f4e80347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 36/81] fix: refuse to decode before the main header was read

---
 openjp2-rs/src/j2k.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index e1fd3ff..6e174a1 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -11997,9 +11997,16 @@ pub(crate) fn opj_j2k_decode(
     mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     unsafe {
-        if !p_j2k.m_private_image.is_null()
-            && p_image.numcomps < (*p_j2k.m_private_image).numcomps
-        {
+        // Without an image the header was not read, or an earlier decoding failed
+        if p_j2k.m_private_image.is_null() {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "There is no image to decode: read the main header first.\n",
+            );
+            return 0i32;
+        }
+        if p_image.numcomps < (*p_j2k.m_private_image).numcomps {
             event_msg!(p_manager, EVT_ERROR, "Image has less components than codestream.\n",);
             return 0i32;
         }
-- 
2.43.0


From a0344287532f5bd7210d1e839ee591a02d6a5c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:33 +0000
Subject: [PATCH 37/81] fix: skip a last tile-part of unknown length

When the last tile-part has Psot = 0 and belongs to a tile that is not
wanted, skipping it moved by no byte, and what followed its SOT was taken
for a marker. The flag also stayed set for the tile-parts read later.
---
 openjp2-rs/src/j2k.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 6e174a1..26a9b38 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -3766,6 +3766,9 @@ fn opj_j2k_read_sot(
       event_msg!(p_manager, EVT_INFO,
                       "Psot value of the current tile-part is equal to zero, we assuming it is the last tile-part of the codestream.\n");
       p_j2k.m_specific_param.m_decoder.m_last_tile_part = 1i32
+    } else {
+      /* The last tile-part may have been read before, for another tile */
+      p_j2k.m_specific_param.m_decoder.m_last_tile_part = 0i32
     }
     if (*l_tcp).m_nb_tile_parts != 0u32 && l_current_part >= (*l_tcp).m_nb_tile_parts {
       /* Fixes https://bugs.chromium.org/p/oss-fuzz/issues/detail?id=2851 */
@@ -9280,6 +9283,12 @@ pub(crate) fn opj_j2k_read_tile_header(
                             }
                         }
                         if p_j2k.m_specific_param.m_decoder.m_skip_data {
+                            // A last tile-part of unknown length reaches to the EOC marker
+                            if p_j2k.m_specific_param.m_decoder.m_last_tile_part != 0 {
+                                p_j2k.m_specific_param.m_decoder.m_sot_length =
+                                    (opj_stream_get_number_byte_left(p_stream) - 2i64).max(0)
+                                        as OPJ_UINT32
+                            }
                             // Skip the rest of the tile part header
                             if opj_stream_skip(
                                 p_stream,
-- 
2.43.0


From 15f7cac8762175ab45fd58ed8b0589b665815934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 38/81] fix: let the progressions of a tile override those of
 the main header

A POC marker in a tile header was appended to the one of the main header.
---
 openjp2-rs/src/j2k.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 26a9b38..2efdfd4 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -2730,7 +2730,10 @@ fn opj_j2k_read_poc(
         } else {
             p_j2k.m_specific_param.m_decoder.m_default_tcp
         };
-        l_old_poc_nb = if (*l_tcp).POC {
+        // the first header of a tile takes the place of the main header, the later ones continue it
+        let l_first_of_tile = p_j2k.m_specific_param.m_decoder.m_state == J2KState::TPH
+            && (*l_tcp).m_current_tile_part_number == 0;
+        l_old_poc_nb = if (*l_tcp).POC && !l_first_of_tile {
             (*l_tcp).numpocs.wrapping_add(1u32)
         } else {
             0u32
-- 
2.43.0


From addfa5a94c71a3f0a22b31481850b7dc0724a108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 39/81] fix: forget the headers of a tile before reading them
 again

Fetching a tile a second time failed when its packet headers are packed
(PPT), and appended its progressions and data to those of the first time.
---
 openjp2-rs/src/j2k.rs | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 2efdfd4..4531de5 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -3739,6 +3739,10 @@ fn opj_j2k_read_sot(
       }
     }
     (*l_tcp).m_current_tile_part_number = l_current_part as OPJ_INT32;
+    if l_current_part == 0 {
+      /* The tile may have been read before: forget what its headers said */
+      opj_j2k_tcp_header_reset(l_tcp, p_j2k.m_specific_param.m_decoder.m_default_tcp);
+    }
     /* USE_JPWL */
     /* look for the tile in the list of already processed tile (in parts). */
     /* Optimization possible here with a more complex data structure and with the removing of tiles */
@@ -8834,14 +8838,9 @@ pub(crate) fn j2k_destroy_cstr_index(mut p_cstr_ind: *mut opj_codestream_index_t
 }
 
 // *
-// Destroys a tile coding parameter structure.
-//
-// @param       p_tcp           the tile coding parameter to destroy.
-fn opj_j2k_tcp_destroy(mut p_tcp: *mut opj_tcp_t) {
+// Forgets the packet headers packed in the headers of a tile.
+fn opj_j2k_tcp_ppt_destroy(mut p_tcp: *mut opj_tcp_t) {
     unsafe {
-        if p_tcp.is_null() {
-            return;
-        }
         if !(*p_tcp).ppt_markers.is_null() {
             let mut i: OPJ_UINT32 = 0;
             i = 0u32;
@@ -8861,6 +8860,33 @@ fn opj_j2k_tcp_destroy(mut p_tcp: *mut opj_tcp_t) {
             opj_free((*p_tcp).ppt_buffer as *mut core::ffi::c_void);
             (*p_tcp).ppt_buffer = std::ptr::null_mut::<OPJ_BYTE>()
         }
+    }
+}
+
+// *
+// Prepares the coding parameters of a tile for its first tile-part header.
+fn opj_j2k_tcp_header_reset(mut p_tcp: *mut opj_tcp_t, p_default_tcp: *const opj_tcp_t) {
+    unsafe {
+        opj_j2k_tcp_ppt_destroy(p_tcp);
+        (*p_tcp).ppt = false;
+        (*p_tcp).ppt_data = std::ptr::null_mut::<OPJ_BYTE>();
+        (*p_tcp).POC = (*p_default_tcp).POC;
+        (*p_tcp).numpocs = (*p_default_tcp).numpocs;
+        (*p_tcp).pocs = (*p_default_tcp).pocs;
+        opj_j2k_tcp_data_destroy(p_tcp);
+    }
+}
+
+// *
+// Destroys a tile coding parameter structure.
+//
+// @param       p_tcp           the tile coding parameter to destroy.
+fn opj_j2k_tcp_destroy(mut p_tcp: *mut opj_tcp_t) {
+    unsafe {
+        if p_tcp.is_null() {
+            return;
+        }
+        opj_j2k_tcp_ppt_destroy(p_tcp);
         if !(*p_tcp).tccps.is_null() {
             opj_free((*p_tcp).tccps as *mut core::ffi::c_void);
             (*p_tcp).tccps = std::ptr::null_mut::<opj_tccp_t>()
-- 
2.43.0


From 4a35ce2f82025253cc8a484b5e03179a939e256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 40/81] fix: give every tile-part the packet headers that PPM
 packs for it

Packed packet headers of the main header were used in the order in which
tiles were decoded, so codestreams with interleaved tile-parts, and tiles
fetched out of order or twice, were decoded with the wrong headers.
---
 openjp2-rs/src/j2k.rs   | 270 +++++++++++++++-------------------------
 openjp2-rs/src/t2.rs    |  12 +-
 openjp2-rs/src/types.rs |  13 +-
 3 files changed, 106 insertions(+), 189 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 4531de5..2be7124 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -3116,181 +3116,105 @@ fn opj_j2k_read_ppm(
 //
 // @param       p_cp      main coding parameters.
 // @param       p_manager the user event manager.
-fn opj_j2k_merge_ppm(mut p_cp: *mut opj_cp_t, mut p_manager: &mut opj_event_mgr) -> OPJ_BOOL {
+fn opj_j2k_merge_ppm(p_j2k: &mut opj_j2k, mut p_manager: &mut opj_event_mgr) -> OPJ_BOOL {
     unsafe {
-        let mut i: OPJ_UINT32 = 0;
-        let mut l_ppm_data_size: OPJ_UINT32 = 0;
-        let mut l_N_ppm_remaining: OPJ_UINT32 = 0;
-        // preconditions
-
-        assert!(!p_cp.is_null());
-        assert!((*p_cp).ppm_buffer.is_null());
-        if !(*p_cp).ppm {
+        let p_cp = &mut p_j2k.m_cp;
+        if !p_cp.ppm {
             return 1i32;
         }
 
-        l_ppm_data_size = 0u32;
-        l_N_ppm_remaining = 0u32;
-        i = 0u32;
-        while i < (*p_cp).ppm_markers_count {
-            if !(*(*p_cp).ppm_markers.offset(i as isize)).m_data.is_null() {
-                // standard doesn't seem to require contiguous Zppm
-                let mut l_N_ppm: OPJ_UINT32 = 0;
-                let mut l_data_size = (*(*p_cp).ppm_markers.offset(i as isize)).m_data_size;
-                let mut l_data: *const OPJ_BYTE = (*(*p_cp).ppm_markers.offset(i as isize)).m_data;
-                if l_N_ppm_remaining >= l_data_size {
-                    l_N_ppm_remaining = (l_N_ppm_remaining as core::ffi::c_uint)
-                        .wrapping_sub(l_data_size)
-                        as OPJ_UINT32;
-                    l_data_size = 0u32
-                } else {
-                    l_data = l_data.offset(l_N_ppm_remaining as isize);
-                    l_data_size = (l_data_size as core::ffi::c_uint).wrapping_sub(l_N_ppm_remaining)
-                        as OPJ_UINT32;
-                    l_N_ppm_remaining = 0u32
-                }
-                if l_data_size > 0u32 {
-                    loop {
-                        // read Nppm
-                        if l_data_size < 4u32 {
-                            // clean up to be done on l_cp destruction
-                            event_msg!(p_manager, EVT_ERROR, "Not enough bytes to read Nppm\n",);
-                            return 0i32;
-                        }
-                        opj_read_bytes(l_data, &mut l_N_ppm, 4 as OPJ_UINT32);
-                        l_data = l_data.offset(4);
-                        l_data_size -= 4;
-
-                        if l_ppm_data_size > u32::MAX - l_N_ppm {
-                            event_msg!(p_manager, EVT_ERROR, "Too large value for Nppm\n",);
-                            return 0i32;
-                        }
-                        l_ppm_data_size += l_N_ppm;
-                        if l_data_size >= l_N_ppm {
-                            l_data_size = (l_data_size as core::ffi::c_uint).wrapping_sub(l_N_ppm)
-                                as OPJ_UINT32;
-                            l_data = l_data.offset(l_N_ppm as isize)
-                        } else {
-                            l_N_ppm_remaining = l_N_ppm.wrapping_sub(l_data_size);
-                            l_data_size = 0u32
-                        }
-                        if l_data_size == 0u32 {
-                            break;
-                        }
-                    }
-                }
+        // standard doesn't seem to require contiguous Zppm
+        let mut l_data = Vec::new();
+        for i in 0..p_cp.ppm_markers_count {
+            let l_marker = &mut *p_cp.ppm_markers.offset(i as isize);
+            if !l_marker.m_data.is_null() {
+                l_data.extend_from_slice(std::slice::from_raw_parts(
+                    l_marker.m_data,
+                    l_marker.m_data_size as usize,
+                ));
+                opj_free(l_marker.m_data as *mut core::ffi::c_void);
+                l_marker.m_data = std::ptr::null_mut::<OPJ_BYTE>();
+                l_marker.m_data_size = 0u32
+            }
+        }
+        p_cp.ppm_markers_count = 0u32;
+        opj_free(p_cp.ppm_markers as *mut core::ffi::c_void);
+        p_cp.ppm_markers = std::ptr::null_mut::<opj_ppx>();
+
+        // Each tile-part, in codestream order, has its number of bytes and as many bytes
+        p_j2k.m_ppm_parts.clear();
+        let mut l_rest = l_data.as_slice();
+        while !l_rest.is_empty() {
+            if l_rest.len() < 4 {
+                event_msg!(p_manager, EVT_ERROR, "Not enough bytes to read Nppm\n",);
+                return 0i32;
             }
-            i += 1;
+            let (l_size, l_next) = l_rest.split_at(4);
+            let l_N_ppm =
+                u32::from_be_bytes([l_size[0], l_size[1], l_size[2], l_size[3]]) as usize;
+            if l_N_ppm > l_next.len() {
+                event_msg!(p_manager, EVT_ERROR, "Corrupted PPM markers\n",);
+                return 0i32;
+            }
+            let (l_part, l_next) = l_next.split_at(l_N_ppm);
+            p_j2k.m_ppm_parts.push(l_part.to_vec());
+            l_rest = l_next;
         }
-        if l_N_ppm_remaining != 0u32 {
-            // clean up to be done on l_cp destruction
-            event_msg!(p_manager, EVT_ERROR, "Corrupted PPM markers\n",);
-            return 0i32;
+        1i32
+    }
+}
+
+// *
+// Gives a tile the packet headers that the main header packs for one of its tile-parts.
+//
+// @param       p_j2k      the jpeg2000 codec.
+// @param       p_sot_pos  the position of the tile-part in the codestream.
+// @param       p_manager  the user event manager.
+fn opj_j2k_use_ppm(
+    p_j2k: &mut opj_j2k,
+    p_sot_pos: OPJ_OFF_T,
+    mut p_manager: &mut opj_event_mgr,
+) -> OPJ_BOOL {
+    unsafe {
+        // Tile-parts are met in order, though some may be met again
+        let l_part = match p_j2k.m_ppm_sot_pos.binary_search(&p_sot_pos) {
+            Ok(l_part) => l_part,
+            Err(l_part) => {
+                p_j2k.m_ppm_sot_pos.insert(l_part, p_sot_pos);
+                l_part
+            }
+        };
+        if p_j2k.m_specific_param.m_decoder.m_skip_data {
+            return 1i32;
         }
-        (*p_cp).ppm_buffer = opj_malloc(l_ppm_data_size as size_t) as *mut OPJ_BYTE;
-        if (*p_cp).ppm_buffer.is_null() {
+        let l_headers = match p_j2k.m_ppm_parts.get(l_part) {
+            Some(l_headers) => l_headers.as_slice(),
+            None => &[],
+        };
+        let l_tcp = &mut *p_j2k.m_cp.tcps.offset(p_j2k.m_current_tile_number as isize);
+        let l_markers = opj_realloc(
+            l_tcp.ppt_markers as *mut core::ffi::c_void,
+            (l_tcp.ppt_markers_count as usize + 1).wrapping_mul(core::mem::size_of::<opj_ppx>()),
+        ) as *mut opj_ppx;
+        let l_data = opj_malloc(l_headers.len().max(1)) as *mut OPJ_BYTE;
+        if !l_markers.is_null() {
+            l_tcp.ppt_markers = l_markers
+        }
+        if l_markers.is_null() || l_data.is_null() {
+            opj_free(l_data as *mut core::ffi::c_void);
             event_msg!(p_manager, EVT_ERROR, "Not enough memory to read PPM marker\n",);
             return 0i32;
         }
-        (*p_cp).ppm_len = l_ppm_data_size;
-        l_ppm_data_size = 0u32;
-        l_N_ppm_remaining = 0u32;
-        i = 0u32;
-        while i < (*p_cp).ppm_markers_count {
-            if !(*(*p_cp).ppm_markers.offset(i as isize)).m_data.is_null() {
-                // standard doesn't seem to require contiguous Zppm
-                let mut l_N_ppm_0: OPJ_UINT32 = 0;
-                let mut l_data_size_0 = (*(*p_cp).ppm_markers.offset(i as isize)).m_data_size;
-                let mut l_data_0: *const OPJ_BYTE =
-                    (*(*p_cp).ppm_markers.offset(i as isize)).m_data;
-                if l_N_ppm_remaining >= l_data_size_0 {
-                    memcpy(
-                        (*p_cp).ppm_buffer.offset(l_ppm_data_size as isize)
-                            as *mut core::ffi::c_void,
-                        l_data_0 as *const core::ffi::c_void,
-                        l_data_size_0 as usize,
-                    );
-                    l_ppm_data_size = (l_ppm_data_size as core::ffi::c_uint)
-                        .wrapping_add(l_data_size_0)
-                        as OPJ_UINT32;
-                    l_N_ppm_remaining = (l_N_ppm_remaining as core::ffi::c_uint)
-                        .wrapping_sub(l_data_size_0)
-                        as OPJ_UINT32;
-                    l_data_size_0 = 0u32
-                } else {
-                    memcpy(
-                        (*p_cp).ppm_buffer.offset(l_ppm_data_size as isize)
-                            as *mut core::ffi::c_void,
-                        l_data_0 as *const core::ffi::c_void,
-                        l_N_ppm_remaining as usize,
-                    );
-                    l_ppm_data_size = (l_ppm_data_size as core::ffi::c_uint)
-                        .wrapping_add(l_N_ppm_remaining)
-                        as OPJ_UINT32;
-                    l_data_0 = l_data_0.offset(l_N_ppm_remaining as isize);
-                    l_data_size_0 = (l_data_size_0 as core::ffi::c_uint)
-                        .wrapping_sub(l_N_ppm_remaining)
-                        as OPJ_UINT32;
-                    l_N_ppm_remaining = 0u32
-                }
-                if l_data_size_0 > 0u32 {
-                    loop {
-                        // read Nppm
-                        if l_data_size_0 < 4u32 {
-                            // clean up to be done on l_cp destruction
-                            event_msg!(p_manager, EVT_ERROR, "Not enough bytes to read Nppm\n",);
-                            return 0i32;
-                        }
-                        opj_read_bytes(l_data_0, &mut l_N_ppm_0, 4 as OPJ_UINT32);
-                        l_data_0 = l_data_0.offset(4);
-                        l_data_size_0 = (l_data_size_0 as core::ffi::c_uint).wrapping_sub(4u32)
-                            as OPJ_UINT32 as OPJ_UINT32;
-                        if l_data_size_0 >= l_N_ppm_0 {
-                            memcpy(
-                                (*p_cp).ppm_buffer.offset(l_ppm_data_size as isize)
-                                    as *mut core::ffi::c_void,
-                                l_data_0 as *const core::ffi::c_void,
-                                l_N_ppm_0 as usize,
-                            );
-                            l_ppm_data_size = (l_ppm_data_size as core::ffi::c_uint)
-                                .wrapping_add(l_N_ppm_0)
-                                as OPJ_UINT32;
-                            l_data_size_0 = (l_data_size_0 as core::ffi::c_uint)
-                                .wrapping_sub(l_N_ppm_0)
-                                as OPJ_UINT32;
-                            l_data_0 = l_data_0.offset(l_N_ppm_0 as isize)
-                        } else {
-                            memcpy(
-                                (*p_cp).ppm_buffer.offset(l_ppm_data_size as isize)
-                                    as *mut core::ffi::c_void,
-                                l_data_0 as *const core::ffi::c_void,
-                                l_data_size_0 as usize,
-                            );
-                            l_ppm_data_size = (l_ppm_data_size as core::ffi::c_uint)
-                                .wrapping_add(l_data_size_0)
-                                as OPJ_UINT32;
-                            l_N_ppm_remaining = l_N_ppm_0.wrapping_sub(l_data_size_0);
-                            l_data_size_0 = 0u32
-                        }
-                        if l_data_size_0 == 0u32 {
-                            break;
-                        }
-                    }
-                }
-                opj_free(
-                    (*(*p_cp).ppm_markers.offset(i as isize)).m_data as *mut core::ffi::c_void,
-                );
-                let fresh13 = &mut (*(*p_cp).ppm_markers.offset(i as isize)).m_data;
-                *fresh13 = std::ptr::null_mut::<OPJ_BYTE>();
-                (*(*p_cp).ppm_markers.offset(i as isize)).m_data_size = 0u32
-            }
-            i += 1;
-        }
-        (*p_cp).ppm_data = (*p_cp).ppm_buffer;
-        (*p_cp).ppm_data_size = (*p_cp).ppm_len;
-        (*p_cp).ppm_markers_count = 0u32;
-        opj_free((*p_cp).ppm_markers as *mut core::ffi::c_void);
-        (*p_cp).ppm_markers = std::ptr::null_mut::<opj_ppx>();
+        memcpy(
+            l_data as *mut core::ffi::c_void,
+            l_headers.as_ptr() as *const core::ffi::c_void,
+            l_headers.len(),
+        );
+        let l_marker = l_tcp.ppt_markers.offset(l_tcp.ppt_markers_count as isize);
+        (*l_marker).m_data = l_data;
+        (*l_marker).m_data_size = l_headers.len() as OPJ_UINT32;
+        l_tcp.ppt_markers_count += 1;
+        l_tcp.ppt = true;
         1i32
     }
 }
@@ -3433,7 +3357,7 @@ fn opj_j2k_merge_ppt(mut p_tcp: *mut opj_tcp_t, mut p_manager: &mut opj_event_mg
             i += 1;
             // can't overflow, max 256 markers of max 65536 bytes
         }
-        (*p_tcp).ppt_buffer = opj_malloc(l_ppt_data_size as size_t) as *mut OPJ_BYTE;
+        (*p_tcp).ppt_buffer = opj_malloc(l_ppt_data_size.max(1u32) as size_t) as *mut OPJ_BYTE;
         if (*p_tcp).ppt_buffer.is_null() {
             event_msg!(p_manager, EVT_ERROR, "Not enough memory to read PPT marker\n",);
             return 0i32;
@@ -8481,7 +8405,7 @@ fn opj_j2k_read_header_procedure(
             event_msg!(p_manager, EVT_ERROR, "required QCD marker not found in main header\n",);
             return 0i32;
         }
-        if opj_j2k_merge_ppm(&mut p_j2k.m_cp, p_manager) == 0 {
+        if opj_j2k_merge_ppm(p_j2k, p_manager) == 0 {
             event_msg!(p_manager, EVT_ERROR, "Failed to merge PPM data\n",);
             return 0i32;
         }
@@ -8946,7 +8870,7 @@ fn opj_j2k_tcp_data_destroy(mut p_tcp: *mut opj_tcp_t) {
 // @param       p_cp            the coding parameter to destroy.
 fn opj_j2k_cp_destroy(mut p_cp: *mut opj_cp_t) {
     unsafe {
-        let mut l_nb_tiles: OPJ_UINT32 = 0; // ppm_data belongs to the allocated buffer pointed by ppm_buffer
+        let mut l_nb_tiles: OPJ_UINT32 = 0;
         let mut l_current_tile = std::ptr::null_mut::<opj_tcp_t>();
         if p_cp.is_null() {
             return;
@@ -8980,9 +8904,6 @@ fn opj_j2k_cp_destroy(mut p_cp: *mut opj_cp_t) {
             opj_free((*p_cp).ppm_markers as *mut core::ffi::c_void);
             (*p_cp).ppm_markers = std::ptr::null_mut::<opj_ppx>()
         }
-        opj_free((*p_cp).ppm_buffer as *mut core::ffi::c_void);
-        (*p_cp).ppm_buffer = std::ptr::null_mut::<OPJ_BYTE>();
-        (*p_cp).ppm_data = std::ptr::null_mut::<OPJ_BYTE>();
         opj_free((*p_cp).comment as *mut core::ffi::c_void);
         (*p_cp).comment = std::ptr::null_mut::<OPJ_CHAR>();
         if !(*p_cp).m_is_decoder {
@@ -9310,6 +9231,11 @@ pub(crate) fn opj_j2k_read_tile_header(
                                 p_j2k.m_specific_param.m_decoder.m_last_sot_read_pos =
                                     sot_pos as OPJ_OFF_T
                             }
+                            if p_j2k.m_cp.ppm
+                                && opj_j2k_use_ppm(p_j2k, sot_pos as OPJ_OFF_T, p_manager) == 0
+                            {
+                                return false;
+                            }
                         }
                         if p_j2k.m_specific_param.m_decoder.m_skip_data {
                             // A last tile-part of unknown length reaches to the EOC marker
@@ -10254,6 +10180,8 @@ impl opj_j2k {
                 ihdr_w: 0,
                 ihdr_h: 0,
                 dump_state: 0,
+                m_ppm_parts: Vec::new(),
+                m_ppm_sot_pos: Vec::new(),
             }
         }
     }
diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index 35a0d99..200bcc7 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -1007,7 +1007,7 @@ unsafe fn opj_t2_skip_packet(
 }
 
 unsafe fn opj_t2_read_packet_header(
-    mut p_t2: *mut opj_t2_t,
+    _p_t2: *mut opj_t2_t,
     mut p_tile: *mut opj_tcd_tile_t,
     mut p_tcp: *mut opj_tcp_t,
     mut p_pi: *mut opj_pi_iterator_t,
@@ -1026,7 +1026,6 @@ unsafe fn opj_t2_read_packet_header(
     let mut l_header_length: OPJ_UINT32 = 0;
     let mut l_modified_length_ptr = std::ptr::null_mut::<OPJ_UINT32>();
     let mut l_current_data = p_src_data;
-    let mut l_cp = (*p_t2).cp;
     let mut l_bio = std::ptr::null_mut::<opj_bio_t>();
     let mut l_band = std::ptr::null_mut::<opj_tcd_band_t>();
     let mut l_cblk = std::ptr::null_mut::<opj_tcd_cblk_dec_t>();
@@ -1093,13 +1092,8 @@ unsafe fn opj_t2_read_packet_header(
         return 0i32;
     }
 
-    if (*l_cp).ppm {
-        // PPM
-        l_header_data_start = &mut (*l_cp).ppm_data; // Normal Case
-        l_header_data = *l_header_data_start;
-        l_modified_length_ptr = &mut (*l_cp).ppm_len
-    } else if (*p_tcp).ppt {
-        // PPT
+    if (*p_tcp).ppt {
+        // Packed packet headers (PPM or PPT)
         l_header_data_start = &mut (*p_tcp).ppt_data;
         l_header_data = *l_header_data_start;
         l_modified_length_ptr = &mut (*p_tcp).ppt_len
diff --git a/openjp2-rs/src/types.rs b/openjp2-rs/src/types.rs
index 9093a14..fa1d3af 100644
--- a/openjp2-rs/src/types.rs
+++ b/openjp2-rs/src/types.rs
@@ -334,6 +334,10 @@ pub(crate) struct opj_j2k {
     pub ihdr_w: OPJ_UINT32,
     pub ihdr_h: OPJ_UINT32,
     pub dump_state: core::ffi::c_uint,
+    /// Packet headers packed in the main header, for each tile-part
+    pub m_ppm_parts: Vec<Vec<OPJ_BYTE>>,
+    /// Positions of the tile-parts these belong to, as far as they were met
+    pub m_ppm_sot_pos: Vec<OPJ_OFF_T>,
 }
 
 #[derive(Copy, Clone)]
@@ -465,15 +469,6 @@ pub(crate) struct opj_cp {
     pub th: OPJ_UINT32,
     pub ppm_markers_count: OPJ_UINT32,
     pub ppm_markers: *mut opj_ppx,
-    pub ppm_data: *mut OPJ_BYTE,
-    pub ppm_len: OPJ_UINT32,
-    pub ppm_data_read: OPJ_UINT32,
-    pub ppm_data_current: *mut OPJ_BYTE,
-    pub ppm_buffer: *mut OPJ_BYTE,
-    pub ppm_data_first: *mut OPJ_BYTE,
-    pub ppm_data_size: OPJ_UINT32,
-    pub ppm_store: OPJ_INT32,
-    pub ppm_previous: OPJ_INT32,
     pub tcps: *mut opj_tcp_t,
     pub m_specific_param: C2RustUnnamed_0,
     pub strict: OPJ_BOOL,
-- 
2.43.0


From 4aff5da3a2aa155970a47546cf030c69f464d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:31 +0000
Subject: [PATCH 41/81] fix: find again tiles whose number of tile-parts is not
 signalled

The index of a tile had no count of tile-parts when TNsot is 0, so fetching
the tile again looked for it where the last tile-part had been read.
---
 openjp2-rs/src/j2k.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 2be7124..5f014fe 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -3933,6 +3933,11 @@ fn opj_j2k_read_sot(
           .tp_index;
           *fresh21 = new_tp_index_0
         }
+        /* Count the tile-parts that were found */
+        let l_tile_index = (*p_j2k.cstr_index)
+          .tile_index
+          .offset(p_j2k.m_current_tile_number as isize);
+        (*l_tile_index).nb_tps = (*l_tile_index).nb_tps.max(l_current_part.wrapping_add(1u32));
       }
     }
     /* FIXME move this onto a separate method to call before reading any SOT, remove part about main_end header, use a index struct inside p_j2k */
-- 
2.43.0


From ade6bcfbf0656515be02e4a2992ca69cdf744e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 42/81] fix: decode a tile with packed packet headers again

---
 openjp2-rs/src/j2k.rs | 4 ++++
 openjp2-rs/src/t2.rs  | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 5f014fe..1f225ec 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -3342,6 +3342,10 @@ fn opj_j2k_merge_ppt(mut p_tcp: *mut opj_tcp_t, mut p_manager: &mut opj_event_mg
 
         assert!(!p_tcp.is_null());
         if !(*p_tcp).ppt_buffer.is_null() {
+            // The tile is decoded once more, from the data kept for it
+            if (*p_tcp).ppt_markers.is_null() {
+                return 1i32;
+            }
             event_msg!(p_manager, EVT_ERROR, "opj_j2k_merge_ppt() has already been called\n",);
             return 0i32;
         }
diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index 200bcc7..4e8ad59 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -342,6 +342,11 @@ pub(crate) unsafe fn opj_t2_decode_packets(
     let mut l_current_pi = std::ptr::null_mut::<opj_pi_iterator_t>();
     let mut l_pack_info = std::ptr::null_mut::<opj_packet_info_t>();
     let mut l_img_comp = std::ptr::null_mut::<opj_image_comp_t>();
+    // The tile may have been decoded before: packed packet headers start anew
+    if (*l_tcp).ppt {
+        (*l_tcp).ppt_data = (*l_tcp).ppt_buffer;
+        (*l_tcp).ppt_len = (*l_tcp).ppt_data_size
+    }
     // create a packet iterator
     l_pi = opj_pi_create_decode(l_image, l_cp, p_tile_no, p_manager);
     if l_pi.is_null() {
-- 
2.43.0


From 226313e579f48346de224281819c50a395eef67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 43/81] fix: read a component end of 256 from progression order
 changes

---
 openjp2-rs/src/j2k.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 1f225ec..36c2e4f 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -2765,6 +2765,10 @@ fn opj_j2k_read_poc(
             opj_read_bytes(p_header_data, &mut l_tmp, 1 as OPJ_UINT32);
             p_header_data = p_header_data.offset(1);
             (*l_current_poc).prg = l_tmp as OPJ_PROG_ORDER;
+            // a single byte cannot hold 256, which is written as 0
+            if l_comp_room == 1 && (*l_current_poc).compno1 == 0 {
+                (*l_current_poc).compno1 = 256
+            }
             // make sure comp is in acceptable bounds
             (*l_current_poc).compno1 = opj_uint_min((*l_current_poc).compno1, l_nb_comp);
             l_current_poc = l_current_poc.offset(1);
-- 
2.43.0


From 3a9db15d06cb639289231bcbddbd9b87327ef57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 44/81] fix: let COC and QCC take precedence over COD and QCD
 that follow them

---
 openjp2-rs/src/j2k.rs   | 59 +++++++++++++++++++++++++++++++++++++----
 openjp2-rs/src/types.rs |  4 +++
 2 files changed, 58 insertions(+), 5 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 36c2e4f..34193a9 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -1710,6 +1710,15 @@ fn opj_j2k_write_cod(
     }
 }
 
+/// Level of the header being read: 1 main header, 2 tile-part header
+fn opj_j2k_header_level(p_j2k: &opj_j2k) -> OPJ_UINT32 {
+    if unsafe { p_j2k.m_specific_param.m_decoder.m_state } == J2KState::TPH {
+        2
+    } else {
+        1
+    }
+}
+
 // *
 // Reads a COD marker (Coding style defaults)
 // @param       p_header_data   the data contained in the COD box.
@@ -1785,9 +1794,16 @@ fn opj_j2k_read_cod(
             return 0i32;
         }
         p_header_size = (p_header_size as core::ffi::c_uint).wrapping_sub(5u32) as OPJ_UINT32;
+        // A COC of the same header takes precedence, wherever it stands
+        let l_level = opj_j2k_header_level(p_j2k);
+        let l_first = (*l_tcp).tccps;
+        let l_saved = ((*l_first).coc_level >= l_level).then(|| *l_first);
         i = 0 as OPJ_UINT32;
         while i < (*l_image).numcomps {
-            (*(*l_tcp).tccps.offset(i as isize)).csty = (*l_tcp).csty & 0x1u32;
+            let l_tccp = (*l_tcp).tccps.offset(i as isize);
+            if i == 0 || (*l_tccp).coc_level < l_level {
+                (*l_tccp).csty = (*l_tcp).csty & 0x1u32;
+            }
             i += 1;
         }
         if opj_j2k_read_SPCod_SPCoc(
@@ -1806,7 +1822,10 @@ fn opj_j2k_read_cod(
             return 0i32;
         }
         // Apply the coding style to other components of the current tile or the m_default_tcp
-        opj_j2k_copy_tile_component_parameters(p_j2k);
+        opj_j2k_copy_tile_component_parameters(p_j2k, l_level);
+        if let Some(l_saved) = l_saved {
+            *l_first = l_saved;
+        }
         // Index
         1i32
     }
@@ -2088,6 +2107,7 @@ fn opj_j2k_read_coc(
             event_msg!(p_manager, EVT_ERROR, "Error reading COC marker\n",);
             return 0i32;
         }
+        (*(*l_tcp).tccps.offset(l_comp_no as isize)).coc_level = opj_j2k_header_level(p_j2k);
         1i32
     }
 }
@@ -2189,6 +2209,16 @@ fn opj_j2k_read_qcd(
     // preconditions
 
     assert!(!p_header_data.is_null());
+    // A QCC of the same header takes precedence, wherever it stands
+    let l_level = opj_j2k_header_level(p_j2k);
+    let l_first = unsafe {
+        if p_j2k.m_specific_param.m_decoder.m_state == J2KState::TPH {
+            (*p_j2k.m_cp.tcps.offset(p_j2k.m_current_tile_number as isize)).tccps
+        } else {
+            (*p_j2k.m_specific_param.m_decoder.m_default_tcp).tccps
+        }
+    };
+    let l_saved = unsafe { ((*l_first).qcc_level >= l_level).then(|| *l_first) };
     if opj_j2k_read_SQcd_SQcc(p_j2k, 0 as OPJ_UINT32, p_header_data, &mut p_header_size, p_manager)
         == 0
     {
@@ -2201,7 +2231,10 @@ fn opj_j2k_read_qcd(
     }
     // Apply the quantization parameters to other components of the current tile or the
     // m_default_tcp
-    opj_j2k_copy_tile_quantization_parameters(p_j2k);
+    opj_j2k_copy_tile_quantization_parameters(p_j2k, l_level);
+    if let Some(l_saved) = l_saved {
+        unsafe { *l_first = l_saved };
+    }
     1i32
 }
 
@@ -2419,6 +2452,12 @@ fn opj_j2k_read_qcc(
             event_msg!(p_manager, EVT_ERROR, "Error reading QCC marker\n",);
             return 0i32;
         }
+        let l_tcp = if p_j2k.m_specific_param.m_decoder.m_state == J2KState::TPH {
+            p_j2k.m_cp.tcps.offset(p_j2k.m_current_tile_number as isize)
+        } else {
+            p_j2k.m_specific_param.m_decoder.m_default_tcp
+        };
+        (*(*l_tcp).tccps.offset(l_comp_no as isize)).qcc_level = opj_j2k_header_level(p_j2k);
         1i32
     }
 }
@@ -10554,7 +10593,7 @@ fn opj_j2k_read_SPCod_SPCoc(
 // Copies the tile component parameters of all the component from the first tile component.
 //
 // @param               p_j2k           the J2k codec.
-fn opj_j2k_copy_tile_component_parameters(mut p_j2k: &mut opj_j2k) {
+fn opj_j2k_copy_tile_component_parameters(mut p_j2k: &mut opj_j2k, level: OPJ_UINT32) {
     unsafe {
         // loop
         let mut i: OPJ_UINT32 = 0;
@@ -10577,6 +10616,11 @@ fn opj_j2k_copy_tile_component_parameters(mut p_j2k: &mut opj_j2k) {
             .wrapping_mul(core::mem::size_of::<OPJ_UINT32>() as OPJ_UINT32);
         i = 1 as OPJ_UINT32;
         while i < (*p_j2k.m_private_image).numcomps {
+            if (*l_copied_tccp).coc_level >= level {
+                l_copied_tccp = l_copied_tccp.offset(1);
+                i += 1;
+                continue;
+            }
             (*l_copied_tccp).numresolutions = (*l_ref_tccp).numresolutions;
             (*l_copied_tccp).cblkw = (*l_ref_tccp).cblkw;
             (*l_copied_tccp).cblkh = (*l_ref_tccp).cblkh;
@@ -10924,7 +10968,7 @@ fn opj_j2k_read_SQcd_SQcc(
 // Copies the tile quantization parameters of all the component from the first tile component.
 //
 // @param               p_j2k           the J2k codec.
-fn opj_j2k_copy_tile_quantization_parameters(mut p_j2k: &mut opj_j2k) {
+fn opj_j2k_copy_tile_quantization_parameters(mut p_j2k: &mut opj_j2k, level: OPJ_UINT32) {
     unsafe {
         let mut i: OPJ_UINT32 = 0;
         let mut l_cp = std::ptr::null_mut::<opj_cp_t>();
@@ -10945,6 +10989,11 @@ fn opj_j2k_copy_tile_quantization_parameters(mut p_j2k: &mut opj_j2k) {
             .wrapping_mul(core::mem::size_of::<opj_stepsize_t>()) as OPJ_UINT32;
         i = 1 as OPJ_UINT32;
         while i < (*p_j2k.m_private_image).numcomps {
+            if (*l_copied_tccp).qcc_level >= level {
+                l_copied_tccp = l_copied_tccp.offset(1);
+                i += 1;
+                continue;
+            }
             (*l_copied_tccp).qntsty = (*l_ref_tccp).qntsty;
             (*l_copied_tccp).numgbits = (*l_ref_tccp).numgbits;
             memcpy(
diff --git a/openjp2-rs/src/types.rs b/openjp2-rs/src/types.rs
index fa1d3af..8489369 100644
--- a/openjp2-rs/src/types.rs
+++ b/openjp2-rs/src/types.rs
@@ -440,6 +440,10 @@ pub(crate) struct opj_tccp {
     pub prcw: [OPJ_UINT32; 33],
     pub prch: [OPJ_UINT32; 33],
     pub m_dc_level_shift: OPJ_INT32,
+    /// Header level that had a COC for this component (0 none, 1 main header, 2 tile-part header)
+    pub coc_level: OPJ_UINT32,
+    /// Header level that had a QCC for this component (0 none, 1 main header, 2 tile-part header)
+    pub qcc_level: OPJ_UINT32,
 }
 pub(crate) type opj_tccp_t = opj_tccp;
 
-- 
2.43.0


From f14a6eed9b3de324886a5e10e02a9969ee2acb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 45/81] fix: skip unknown markers by their length

---
 openjp2-rs/src/j2k.rs | 136 ++++++++++++++++++++++++++++++------------
 1 file changed, 97 insertions(+), 39 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 34193a9..a602340 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -358,6 +358,11 @@ impl J2KMarker {
         }
     }
 
+    /// Reserved markers 0xFF30 to 0xFF3F stand alone, without a length
+    pub fn is_bare(&self) -> bool {
+        (0xFF30..=0xFF3F).contains(&self.as_u32())
+    }
+
     pub fn states(&self) -> J2KState {
         match self {
             Self::SOT => J2KState::MH | J2KState::TPHSOT,
@@ -415,6 +420,8 @@ impl J2KMarker {
             Self::CPF => opj_j2k_read_cpf(p_j2k, p_header_data, p_header_size, p_manager),
             Self::MCC => opj_j2k_read_mcc(p_j2k, p_header_data, p_header_size, p_manager),
             Self::MCO => opj_j2k_read_mco(p_j2k, p_header_data, p_header_size, p_manager),
+            // Unknown marker segments are skipped
+            Self::UNK(_) => 1i32,
             _ => {
                 // No handler for this marker.
                 event_msg!(&mut *p_manager, EVT_ERROR, "No handler for unknown marker.\n",);
@@ -5017,13 +5024,59 @@ fn opj_j2k_read_unk(
     mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     unsafe {
-        let mut l_unknown_marker: OPJ_UINT32 = 0;
-        let mut l_size_unk = 2 as OPJ_UINT32;
-        let mut l_marker_handler = J2KMarker::UNK(0);
         // preconditions
 
         event_msg!(p_manager, EVT_WARNING, "Unknown marker\n",);
         loop {
+            let l_position = opj_stream_tell(p_stream) - 2i64;
+            let mut l_size_unk = 2 as OPJ_UINT32;
+            if !output_marker.is_bare() {
+                // Skip the marker segment by its length
+                if opj_stream_read_data(
+                    p_stream,
+                    p_j2k.m_specific_param.m_decoder.m_header_data,
+                    2 as OPJ_SIZE_T,
+                    p_manager,
+                ) != 2
+                {
+                    event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
+                    return 0i32;
+                }
+                let mut l_marker_size: OPJ_UINT32 = 0;
+                opj_read_bytes(
+                    p_j2k.m_specific_param.m_decoder.m_header_data,
+                    &mut l_marker_size,
+                    2 as OPJ_UINT32,
+                );
+                if l_marker_size < 2u32 {
+                    event_msg!(p_manager, EVT_ERROR, "Invalid marker size\n",);
+                    return 0i32;
+                }
+                let mut l_left = l_marker_size - 2;
+                while l_left > 0 {
+                    let l_part =
+                        l_left.min(p_j2k.m_specific_param.m_decoder.m_header_data_size);
+                    if opj_stream_read_data(
+                        p_stream,
+                        p_j2k.m_specific_param.m_decoder.m_header_data,
+                        l_part as OPJ_SIZE_T,
+                        p_manager,
+                    ) != l_part as OPJ_SIZE_T
+                    {
+                        event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
+                        return 0i32;
+                    }
+                    l_left -= l_part;
+                }
+                l_size_unk = l_marker_size + 2;
+            }
+            // Add the marker to the codestream index
+            if opj_j2k_add_mhmarker(p_j2k.cstr_index, *output_marker, l_position, l_size_unk)
+                == 0i32
+            {
+                event_msg!(p_manager, EVT_ERROR, "Not enough memory to add mh marker\n",);
+                return 0i32;
+            }
             // Try to read 2 bytes (the next marker ID) from stream and copy them into the buffer
             if opj_stream_read_data(
                 p_stream,
@@ -5035,45 +5088,20 @@ fn opj_j2k_read_unk(
                 event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
                 return 0i32;
             }
-            // read 2 bytes as the new marker ID
-            opj_read_bytes(
-                p_j2k.m_specific_param.m_decoder.m_header_data,
-                &mut l_unknown_marker,
-                2 as OPJ_UINT32,
-            );
-            if l_unknown_marker < 0xFF00u32 {
-                continue;
-            }
-            // Get the marker handler from the marker ID
-            l_marker_handler = J2KMarker::from(l_unknown_marker);
-            if p_j2k.m_specific_param.m_decoder.m_state & l_marker_handler.states()
-                == J2KState::NONE
+            *output_marker =
+                J2KMarker::from_buffer(p_j2k.m_specific_param.m_decoder.m_header_data);
+            if output_marker.is_invalid()
+                || p_j2k.m_specific_param.m_decoder.m_state & output_marker.states()
+                    == J2KState::NONE
             {
                 event_msg!(p_manager, EVT_ERROR, "Marker is not compliant with its position\n",);
                 return 0i32;
-            } else if !l_marker_handler.is_unknown() {
-                // Add the marker to the codestream index
-                if l_marker_handler != J2KMarker::SOT {
-                    let mut res = opj_j2k_add_mhmarker(
-                        p_j2k.cstr_index,
-                        J2KMarker::UNK(0),
-                        (opj_stream_tell(p_stream) as OPJ_UINT32).wrapping_sub(l_size_unk)
-                            as OPJ_OFF_T,
-                        l_size_unk,
-                    );
-                    if res == 0i32 {
-                        event_msg!(p_manager, EVT_ERROR, "Not enough memory to add mh marker\n",);
-                        return 0i32;
-                    }
-                }
-                break;
-            // next marker is known and well located
-            } else {
-                l_size_unk = (l_size_unk as core::ffi::c_uint).wrapping_add(2u32) as OPJ_UINT32
+            }
+            if !output_marker.is_unknown() {
+                // next marker is known and well located
+                return 1i32;
             }
         }
-        *output_marker = l_marker_handler;
-        1i32
     }
 }
 // *
@@ -9129,6 +9157,35 @@ pub(crate) fn opj_j2k_read_tile_header(
                 if opj_stream_get_number_byte_left(p_stream) == 0i64 {
                     p_j2k.m_specific_param.m_decoder.m_state = J2KState::NEOC;
                     break;
+                } else if l_current_marker.is_bare()
+                    && p_j2k.m_specific_param.m_decoder.m_state & J2KState::TPH != J2KState::NONE
+                {
+                    // A marker that stands alone: go on with the next one
+                    if opj_j2k_add_tlmarker(
+                        p_j2k.m_current_tile_number,
+                        p_j2k.cstr_index,
+                        l_current_marker,
+                        opj_stream_tell(p_stream) - 2i64,
+                        2 as OPJ_UINT32,
+                    ) == 0i32
+                    {
+                        event_msg!(p_manager, EVT_ERROR, "Not enough memory to add tl marker\n",);
+                        return false;
+                    }
+                    p_j2k.m_specific_param.m_decoder.m_sot_length =
+                        p_j2k.m_specific_param.m_decoder.m_sot_length.wrapping_sub(2u32);
+                    if opj_stream_read_data(
+                        p_stream,
+                        p_j2k.m_specific_param.m_decoder.m_header_data,
+                        2 as OPJ_SIZE_T,
+                        p_manager,
+                    ) != 2
+                    {
+                        event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
+                        return false;
+                    }
+                    l_current_marker =
+                        J2KMarker::from_buffer(p_j2k.m_specific_param.m_decoder.m_header_data);
                 } else {
                     // Try to read 2 bytes (the marker size) from stream and copy them into the
                     // buffer
@@ -9174,8 +9231,9 @@ pub(crate) fn opj_j2k_read_tile_header(
                         // Get the marker handler from the marker ID
                         let l_marker_handler = l_current_marker;
                         // Check if the marker is known and if it is the right place to find it
-                        if p_j2k.m_specific_param.m_decoder.m_state & l_marker_handler.states()
-                            == J2KState::NONE
+                        if l_marker_handler.is_invalid()
+                            || p_j2k.m_specific_param.m_decoder.m_state & l_marker_handler.states()
+                                == J2KState::NONE
                         {
                             event_msg!(
                                 p_manager,
-- 
2.43.0


From cc0e7b719f52c5f9d27c8eca911d22a23eba72d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 46/81] fix: refuse QCD and QCC segments without their step
 sizes

---
 openjp2-rs/src/j2k.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index a602340..63f058c 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -10969,6 +10969,12 @@ fn opj_j2k_read_SQcd_SQcc(
                 // return OPJ_FALSE;
             }
         }
+        // Every style has at least one step size, and all of them are in the segment
+        let l_step_size = if (*l_tccp).qntsty == 0u32 { 1u32 } else { 2u32 };
+        if l_num_band == 0u32 || *p_header_size / l_step_size < l_num_band {
+            event_msg!(p_manager, EVT_ERROR, "Error reading SQcd or SQcc element\n",);
+            return 0i32;
+        }
         // USE_JPWL
 
         if (*l_tccp).qntsty == 0u32 {
-- 
2.43.0


From c0b006a46f07b55856fb0e34c252b5fb35fa98c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 47/81] fix: do not overflow on more zero bit-planes than a
 band has

---
 openjp2-rs/src/t2.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index 4e8ad59..682f8b8 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -1194,15 +1194,10 @@ unsafe fn opj_t2_read_packet_header(
                             i += 1;
                         }
                         (*l_cblk).Mb = (*l_band).numbps as OPJ_UINT32;
-                        if (*l_band).numbps as u32 + 1 < i {
-                            // Not totally sure what we should do in that situation,
-                            // but that avoids the integer overflow of
-                            // https://github.com/uclouvain/openjpeg/pull/1488
-                            // while keeping the regression test suite happy.
-                            (*l_cblk).numbps = ((*l_band).numbps + 1 - i as i32) as u32;
-                        } else {
-                            (*l_cblk).numbps = (*l_band).numbps as u32 + 1 - i;
-                        }
+                        // More zero bit-planes than there are wrap around; decoding the
+                        // code-block notices (https://github.com/uclouvain/openjpeg/pull/1488)
+                        (*l_cblk).numbps =
+                            (*l_band).numbps.wrapping_add(1).wrapping_sub(i as i32) as u32;
                         (*l_cblk).numlenbits = 3 as OPJ_UINT32
                     }
                     // number of coding passes
-- 
2.43.0


From 8a17f999094263cea93a4d5c9a30f793c998c405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 48/81] fix: keep the bytes a source had before it ended

---
 openjp2-rs/src/j2k.rs    |  8 ++++++++
 openjp2-rs/src/stream.rs | 30 ++++++++++++++----------------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 63f058c..5f55756 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -4433,7 +4433,15 @@ fn opj_j2k_read_sod(
         } else {
             l_current_read_size = 0 as OPJ_SIZE_T
         }
+        if l_current_read_size == OPJ_SIZE_T::MAX {
+            // The stream gave nothing
+            l_current_read_size = 0
+        }
         if l_current_read_size != p_j2k.m_specific_param.m_decoder.m_sot_length as usize {
+            if p_j2k.m_cp.strict != 0 {
+                event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
+                return 0i32;
+            }
             p_j2k.m_specific_param.m_decoder.m_state = J2KState::NEOC
         } else {
             p_j2k.m_specific_param.m_decoder.m_state = J2KState::TPHSOT
diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index 042b02d..cd02559 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -342,26 +342,24 @@ impl Stream {
     }
 
     pub fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
-        let len = buf.len();
-        match self.m_inner.read_exact(buf) {
-            Ok(_) => {
-                self.m_byte_offset += len as i64;
-                Ok(len)
-            }
-            Err(_err) => {
-                // Maybe EOF, do a partial read.
-                match self.m_inner.read(buf) {
-                    Ok(nb) => {
-                        self.m_byte_offset += nb as i64;
-                        Ok(nb)
-                    }
-                    Err(err) => {
-                        log::trace!("Failed to read from stream: {err}");
-                        Err(err)
+        // Read until the buffer is full or the source has no more
+        let mut total = 0;
+        while total < buf.len() {
+            match self.m_inner.read(&mut buf[total..]) {
+                Ok(0) => break,
+                Ok(nb) => total += nb,
+                Err(err) if err.kind() == std::io::ErrorKind::Interrupted => {}
+                Err(err) => {
+                    log::trace!("Failed to read from stream: {err}");
+                    if total == 0 {
+                        return Err(err);
                     }
+                    break;
                 }
             }
         }
+        self.m_byte_offset += total as i64;
+        Ok(total)
     }
 
     pub fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
-- 
2.43.0


From 0e94e16aa6b31d9d69e1730cf53da83beeef2935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 49/81] fix: seek with the seek function, skip in steps,
 survive a short stream length

---
 openjp2-rs/src/stream.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index cd02559..aa13a3e 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -167,17 +167,20 @@ impl Seek for CustomStream {
                 }
             }
             SeekFrom::Current(offset) => {
-                let res = if let Some(skip) = &self.m_skip_fn {
-                    unsafe { skip(offset, self.m_user_data) }
-                } else {
-                    return Err(IoError::other("Custom stream doesn't have a skip function"));
-                };
-                if res != -1 {
-                    self.m_byte_offset += offset;
-                    Ok(self.m_byte_offset as u64)
-                } else {
-                    Err(IoError::other("skip failed"))
+                let skip = self
+                    .m_skip_fn
+                    .ok_or_else(|| IoError::other("Custom stream doesn't have a skip function"))?;
+                // A source may skip in several steps
+                let mut left = offset;
+                while left != 0 {
+                    let res = unsafe { skip(left, self.m_user_data) };
+                    if res == 0 || (res < 0) != (left < 0) || res.abs() > left.abs() {
+                        return Err(IoError::other("skip failed"));
+                    }
+                    self.m_byte_offset += res;
+                    left -= res;
                 }
+                Ok(self.m_byte_offset as u64)
             }
             SeekFrom::End(_offset) => Err(IoError::other("Unsupported seek from end")),
         }
@@ -389,13 +392,10 @@ impl Stream {
 
     pub fn get_bytes_left(&self) -> i64 {
         log::trace!("-- byte_left(), offset={}", self.m_byte_offset);
-        assert!(self.m_byte_offset >= 0i64);
-        assert!(self.m_stream_length >= self.m_byte_offset as OPJ_UINT64);
-        let nb = if self.m_stream_length != 0 {
-            (self.m_stream_length as OPJ_OFF_T) - self.m_byte_offset
-        } else {
-            0i64
-        };
+        // Nothing is known to be left when the length is not known or was told too short
+        let nb = (self.m_stream_length as OPJ_OFF_T)
+            .saturating_sub(self.m_byte_offset)
+            .max(0i64);
         log::trace!("-- get_number_byte_left() = {}", nb);
         nb
     }
@@ -431,7 +431,7 @@ impl Stream {
     }
 
     pub fn seek(&mut self, offset: i64) -> std::io::Result<()> {
-        let res = self.m_inner.seek_relative(offset - self.m_byte_offset);
+        let res = self.m_inner.seek(SeekFrom::Start(offset as u64));
         match res {
             Ok(_) => {
                 self.m_byte_offset = offset;
-- 
2.43.0


From 9ef119740290be5f2ac0e37a7b2763e790bdc372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 50/81] fix: return no stream for a file that cannot be opened

---
 openjp2-rs/src/openjpeg.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/openjp2-rs/src/openjpeg.rs b/openjp2-rs/src/openjpeg.rs
index bffa9b8..fdf005e 100644
--- a/openjp2-rs/src/openjpeg.rs
+++ b/openjp2-rs/src/openjpeg.rs
@@ -668,9 +668,13 @@ pub unsafe fn opj_stream_create_file_stream(
     }
     match std::ffi::CStr::from_ptr(fname).to_str() {
         Ok(name) => {
-            let l_stream =
-                Box::new(opj_stream_private::new_file(name, p_size, p_is_read_stream != 0));
-            Box::into_raw(l_stream) as *mut opj_stream_t
+            match opj_stream_private::new_file(name, p_size, p_is_read_stream != 0) {
+                Ok(l_stream) => Box::into_raw(Box::new(l_stream)) as *mut opj_stream_t,
+                Err(err) => {
+                    log::error!("Failed to open {name}: {err}");
+                    std::ptr::null_mut::<opj_stream_t>()
+                }
+            }
         }
         Err(err) => {
             log::error!("Failed to convert C filename to Rust String: {err}");
-- 
2.43.0


From bd44aa0c5a408e16f4419f991ed6e648013e894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 51/81] fix: tell cut codestreams from complete ones, decode
 complete tiles of cut ones

---
 openjp2-rs/src/j2k.rs | 76 ++++++++++++++++++++++++++++---------------
 1 file changed, 49 insertions(+), 27 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 5f55756..c12d18c 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -4283,7 +4283,7 @@ fn opj_j2k_read_sod(
       // so its result will fit on OPJ_UINT32 unless we find
       // a file with a single tile part of more than 4 GB...*/
       p_j2k.m_specific_param.m_decoder.m_sot_length =
-        (opj_stream_get_number_byte_left(p_stream) - 2i64) as OPJ_UINT32
+        (opj_stream_get_number_byte_left(p_stream) - 2i64).max(0i64) as OPJ_UINT32
     } else if p_j2k.m_specific_param.m_decoder.m_sot_length >= 2u32 {
       p_j2k.m_specific_param.m_decoder.m_sot_length = (p_j2k.m_specific_param.m_decoder.m_sot_length
         as core::ffi::c_uint)
@@ -9067,8 +9067,11 @@ fn opj_j2k_need_nb_tile_parts_correction(
                 p_manager,
             ) != 2
             {
-                event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
-                return 0i32;
+                // assume all is OK
+                if opj_stream_seek(p_stream, l_stream_pos_backup, p_manager) == 0 {
+                    return 0i32;
+                }
+                return 1i32;
             }
             // Read 2 bytes from the buffer as the marker size
             opj_read_bytes(l_header_data.as_mut_ptr(), &mut l_marker_size, 2 as OPJ_UINT32);
@@ -9085,8 +9088,11 @@ fn opj_j2k_need_nb_tile_parts_correction(
                 p_manager,
             ) != l_marker_size as usize
             {
-                event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
-                return 0i32;
+                // assume all is OK
+                if opj_stream_seek(p_stream, l_stream_pos_backup, p_manager) == 0 {
+                    return 0i32;
+                }
+                return 1i32;
             }
             if opj_j2k_get_sot_values(
                 l_header_data.as_mut_ptr(),
@@ -9145,6 +9151,20 @@ pub(crate) fn opj_j2k_read_tile_header(
         let mut l_marker_size: OPJ_UINT32 = 0;
         let mut l_tcp = std::ptr::null_mut::<opj_tcp_t>();
         let l_nb_tiles = p_j2k.m_cp.tw.wrapping_mul(p_j2k.m_cp.th);
+        // The stream ends within a tile-part: refused in strict mode, otherwise
+        // it is taken for the end of the codestream
+        macro_rules! stream_ends {
+            ($parts:lifetime) => {
+                if p_j2k.m_cp.strict != 0 {
+                    event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
+                    return false;
+                }
+                event_msg!(p_manager, EVT_WARNING, "Stream too short\n",);
+                p_j2k.m_specific_param.m_decoder.m_can_decode = false;
+                l_current_marker = J2KMarker::EOC;
+                break $parts;
+            };
+        }
         // preconditions
         // Without an image the header was not read, or an earlier decoding failed
         if p_j2k.m_private_image.is_null() {
@@ -9159,12 +9179,13 @@ pub(crate) fn opj_j2k_read_tile_header(
         }
         // We need to encounter a SOT marker (a new tile-part header)
         // Read into the codestream until reach the EOC or ! can_decode ??? FIXME
-        while !p_j2k.m_specific_param.m_decoder.m_can_decode && l_current_marker != J2KMarker::EOC {
+        'parts: while !p_j2k.m_specific_param.m_decoder.m_can_decode
+            && l_current_marker != J2KMarker::EOC
+        {
             // Try to read until the Start Of Data is detected
             while l_current_marker != J2KMarker::SOD {
                 if opj_stream_get_number_byte_left(p_stream) == 0i64 {
-                    p_j2k.m_specific_param.m_decoder.m_state = J2KState::NEOC;
-                    break;
+                    stream_ends!('parts);
                 } else if l_current_marker.is_bare()
                     && p_j2k.m_specific_param.m_decoder.m_state & J2KState::TPH != J2KState::NONE
                 {
@@ -9189,8 +9210,7 @@ pub(crate) fn opj_j2k_read_tile_header(
                         p_manager,
                     ) != 2
                     {
-                        event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
-                        return false;
+                        stream_ends!('parts);
                     }
                     l_current_marker =
                         J2KMarker::from_buffer(p_j2k.m_specific_param.m_decoder.m_header_data);
@@ -9204,8 +9224,7 @@ pub(crate) fn opj_j2k_read_tile_header(
                         p_manager,
                     ) != 2
                     {
-                        event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
-                        return false;
+                        stream_ends!('parts);
                     }
                     // Read 2 bytes from the buffer as the marker size
                     opj_read_bytes(
@@ -9260,12 +9279,7 @@ pub(crate) fn opj_j2k_read_tile_header(
                             if l_marker_size as OPJ_OFF_T
                                 > opj_stream_get_number_byte_left(p_stream)
                             {
-                                event_msg!(
-                                    p_manager,
-                                    EVT_ERROR,
-                                    "Marker size inconsistent with stream length\n",
-                                );
-                                return false;
+                                stream_ends!('parts);
                             }
                             new_header_data = opj_realloc(
                                 p_j2k.m_specific_param.m_decoder.m_header_data
@@ -9300,8 +9314,7 @@ pub(crate) fn opj_j2k_read_tile_header(
                             p_manager,
                         ) != l_marker_size as usize
                         {
-                            event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
-                            return false;
+                            stream_ends!('parts);
                         }
                         // Read the marker segment with the correct marker handler
                         if l_marker_handler.handler(
@@ -9369,8 +9382,7 @@ pub(crate) fn opj_j2k_read_tile_header(
                                 p_manager,
                             ) != p_j2k.m_specific_param.m_decoder.m_sot_length as i64
                             {
-                                event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
-                                return false;
+                                stream_ends!('parts);
                             }
                             l_current_marker = J2KMarker::SOD
                         // Normally we reached a SOD
@@ -9384,8 +9396,7 @@ pub(crate) fn opj_j2k_read_tile_header(
                                 p_manager,
                             ) != 2
                             {
-                                event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
-                                return false;
+                                stream_ends!('parts);
                             }
                             // Read 2 bytes from the buffer as the new marker ID
                             l_current_marker = J2KMarker::from_buffer(
@@ -9499,8 +9510,7 @@ pub(crate) fn opj_j2k_read_tile_header(
                         break;
                     }
                 }
-                event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
-                return false;
+                stream_ends!('parts);
             } else {
                 // Read 2 bytes from buffer as the new marker ID
                 l_current_marker =
@@ -9641,11 +9651,20 @@ pub(crate) fn opj_j2k_decode_tile(
         if opj_stream_get_number_byte_left(p_stream) == 0i64
             && p_j2k.m_specific_param.m_decoder.m_state == J2KState::NEOC
         {
+            // Other tiles may have data that came before the end
+            p_j2k.m_current_tile_number = 0 as OPJ_UINT32;
+            p_j2k.m_specific_param.m_decoder.m_state = J2KState::EOC;
             return 1i32;
         }
         if p_j2k.m_specific_param.m_decoder.m_state != J2KState::EOC {
             if opj_stream_read_data(p_stream, l_data.as_mut_ptr(), 2 as OPJ_SIZE_T, p_manager) != 2
             {
+                if p_j2k.m_cp.strict == 0 {
+                    event_msg!(p_manager, EVT_WARNING, "Stream too short\n",);
+                    p_j2k.m_current_tile_number = 0 as OPJ_UINT32;
+                    p_j2k.m_specific_param.m_decoder.m_state = J2KState::EOC;
+                    return 1i32;
+                }
                 event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
                 return 0i32;
             }
@@ -9654,7 +9673,10 @@ pub(crate) fn opj_j2k_decode_tile(
                 p_j2k.m_current_tile_number = 0 as OPJ_UINT32;
                 p_j2k.m_specific_param.m_decoder.m_state = J2KState::EOC
             } else if l_current_marker != J2KMarker::SOT {
-                if opj_stream_get_number_byte_left(p_stream) == 0i64 {
+                // A last tile-part without a length reaches to the EOC marker
+                let l_cut = p_j2k.m_specific_param.m_decoder.m_last_tile_part != 0
+                    && p_j2k.m_cp.strict != 0;
+                if opj_stream_get_number_byte_left(p_stream) == 0i64 && !l_cut {
                     p_j2k.m_specific_param.m_decoder.m_state = J2KState::NEOC;
                     event_msg!(p_manager, EVT_WARNING, "Stream does not end with EOC\n",);
                     return 1i32;
-- 
2.43.0


From fa60cd3ed42f6122d067d1fa8e1b0d85af9b267b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 52/81] fix: decode every waiting tile when EOC is missing

---
 openjp2-rs/src/j2k.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index c12d18c..e169f38 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9504,7 +9504,8 @@ pub(crate) fn opj_j2k_read_tile_header(
                         event_msg!(p_manager, EVT_INFO,
                                   "Tile %u has TPsot == 0 and TNsot == 0, but no other tile-parts were found. EOC is also missing.\n",
                                   l_tile_no_0);
-                        p_j2k.m_current_tile_number = l_tile_no_0;
+                        // Tiles before it may have data that waits to be decoded
+                        p_j2k.m_current_tile_number = 0 as OPJ_UINT32;
                         l_current_marker = J2KMarker::EOC;
                         p_j2k.m_specific_param.m_decoder.m_state = J2KState::EOC;
                         break;
-- 
2.43.0


From a32791c5f6e76e5cc01894be6d5d873ec31c2c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 53/81] fix: decode tiles whose progressions leave out
 resolutions

---
 openjp2-rs/src/tcd.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 3e598c8..f3ff7c8 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -1856,6 +1856,14 @@ pub(crate) unsafe fn opj_tcd_decode_tile(
     {
         return 0i32;
     }
+    // Resolutions of which the progressions name no packet have no coefficients
+    compno = 0 as OPJ_UINT32;
+    while compno < (*(*p_tcd).image).numcomps {
+        let tilec = (*(*(*p_tcd).tcd_image).tiles).comps.offset(compno as isize);
+        (*(*(*p_tcd).image).comps.offset(compno as isize)).resno_decoded =
+            (*tilec).minimum_num_resolutions.wrapping_sub(1u32);
+        compno += 1;
+    }
     // FIXME _ProfStop(PGROUP_T2);
     // ------------------TIER1-----------------
     // FIXME _ProfStart(PGROUP_T1);
-- 
2.43.0


From 1a517945d73e15435100cdf8a283d163b0ef0e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 54/81] fix: decode the other tiles when the last tile-part has
 no data yet

---
 openjp2-rs/src/j2k.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index e169f38..5af388a 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -4375,8 +4375,11 @@ fn opj_j2k_read_sod(
             }
         } else {
             l_sot_length_pb_detected = 1i32;
-            // With packed packet headers a tile of empty packets has no data at all
-            if (*l_current_data).is_null() && (p_j2k.m_cp.ppm || (*l_tcp).ppt) {
+            // With packed packet headers a tile of empty packets has no data at all,
+            // and a last tile-part of unknown length may be cut before its data
+            let l_cut = p_j2k.m_cp.strict == 0
+                && p_j2k.m_specific_param.m_decoder.m_last_tile_part != 0;
+            if (*l_current_data).is_null() && (p_j2k.m_cp.ppm || (*l_tcp).ppt || l_cut) {
                 *l_current_data = opj_calloc(1, 2) as *mut OPJ_BYTE;
                 if (*l_current_data).is_null() {
                     event_msg!(p_manager, EVT_ERROR, "Not enough memory to decode tile\n",);
-- 
2.43.0


From a6c1d681453c8e9825e26dd5fc3d9c0396f4bc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 55/81] fix: refuse a last tile-part cut before its data in
 strict mode

---
 openjp2-rs/src/j2k.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 5af388a..d2b2c7f 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -4278,6 +4278,10 @@ fn opj_j2k_read_sod(
         l_tcp =
             &mut *p_j2k.m_cp.tcps.offset(p_j2k.m_current_tile_number as isize) as *mut opj_tcp_t;
         if p_j2k.m_specific_param.m_decoder.m_last_tile_part != 0 {
+            if opj_stream_get_number_byte_left(p_stream) < 2i64 && p_j2k.m_cp.strict != 0 {
+                event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
+                return 0i32;
+            }
       /* opj_stream_get_number_byte_left returns OPJ_OFF_T
       // but we are in the last tile part,
       // so its result will fit on OPJ_UINT32 unless we find
-- 
2.43.0


From 202bbf276a4cd042316a1bb637cb50d4dd3c1064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:50 +0000
Subject: [PATCH 56/81] fix: do not take a failing source for a codestream
 without EOC

---
 openjp2-rs/src/j2k.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index d2b2c7f..5b83d3a 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9493,7 +9493,10 @@ pub(crate) fn opj_j2k_read_tile_header(
                 // Deal with likely non conformant SPOT6 files, where the last
                 // row of tiles have TPsot == 0 and TNsot == 0, and missing EOC,
                 // but no other tile-parts were found.
-                if p_j2k.m_current_tile_number.wrapping_add(1u32) == l_nb_tiles {
+                // (A source that failed before its end is not such a file.)
+                if p_j2k.m_current_tile_number.wrapping_add(1u32) == l_nb_tiles
+                    && opj_stream_get_number_byte_left(p_stream) < 2i64
+                {
                     let mut l_tile_no_0: OPJ_UINT32 = 0;
                     l_tile_no_0 = 0u32;
                     while l_tile_no_0 < l_nb_tiles {
-- 
2.43.0


From 01afb6d58f9ca43b5287156976c54d217b6a18d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 57/81] fix: report the precincts and numbers of all components
 in the header information

---
 openjp2-rs/src/j2k.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 5b83d3a..23ed1d8 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -11490,6 +11490,7 @@ pub(crate) fn j2k_get_cstr_info(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream_
                 as *mut opj_tccp_info_t;
             let mut bandno: OPJ_INT32 = 0;
             let mut numbands: OPJ_INT32 = 0;
+            (*l_tccp_info).compno = compno;
             // coding style
             (*l_tccp_info).csty = (*l_tccp).csty;
             (*l_tccp_info).numresolutions = (*l_tccp).numresolutions;
@@ -11501,12 +11502,14 @@ pub(crate) fn j2k_get_cstr_info(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream_
                 memcpy(
                     (*l_tccp_info).prch.as_mut_ptr() as *mut core::ffi::c_void,
                     (*l_tccp).prch.as_mut_ptr() as *const core::ffi::c_void,
-                    (*l_tccp).numresolutions as usize,
+                    ((*l_tccp).numresolutions as usize)
+                        .wrapping_mul(core::mem::size_of::<OPJ_UINT32>()),
                 );
                 memcpy(
                     (*l_tccp_info).prcw.as_mut_ptr() as *mut core::ffi::c_void,
                     (*l_tccp).prcw.as_mut_ptr() as *const core::ffi::c_void,
-                    (*l_tccp).numresolutions as usize,
+                    ((*l_tccp).numresolutions as usize)
+                        .wrapping_mul(core::mem::size_of::<OPJ_UINT32>()),
                 );
             }
             // quantization style
-- 
2.43.0


From aab8dd7a4ab8571a475ad2c2a0834c3baa517a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 58/81] fix: give the codestream index also while tiles are
 unread, with their numbers

---
 openjp2-rs/src/j2k.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 23ed1d8..a485c55 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -11586,6 +11586,8 @@ pub(crate) fn j2k_get_cstr_index(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream
             let mut it_tile = 0 as OPJ_UINT32;
             it_tile = 0 as OPJ_UINT32;
             while it_tile < (*l_cstr_index).nb_of_tiles {
+                (*(*l_cstr_index).tile_index.offset(it_tile as isize)).tileno =
+                    (*(*p_j2k.cstr_index).tile_index.offset(it_tile as isize)).tileno;
                 // Tile Marker
                 (*(*l_cstr_index).tile_index.offset(it_tile as isize)).marknum =
                     (*(*p_j2k.cstr_index).tile_index.offset(it_tile as isize)).marknum;
@@ -11597,6 +11599,7 @@ pub(crate) fn j2k_get_cstr_index(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream
                 if (*(*l_cstr_index).tile_index.offset(it_tile as isize))
                     .marker
                     .is_null()
+                    && (*(*l_cstr_index).tile_index.offset(it_tile as isize)).marknum != 0
                 {
                     let mut it_tile_free: OPJ_UINT32 = 0;
                     it_tile_free = 0 as OPJ_UINT32;
@@ -11644,6 +11647,7 @@ pub(crate) fn j2k_get_cstr_index(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream
                 if (*(*l_cstr_index).tile_index.offset(it_tile as isize))
                     .tp_index
                     .is_null()
+                    && (*(*l_cstr_index).tile_index.offset(it_tile as isize)).nb_tps != 0
                 {
                     let mut it_tile_free_0: OPJ_UINT32 = 0;
                     it_tile_free_0 = 0 as OPJ_UINT32;
-- 
2.43.0


From 1a4b4384abce9e62bcdc404e5d6ffd1f367770c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 59/81] fix: list the markers of a tile once in the codestream
 index

---
 openjp2-rs/src/j2k.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index a485c55..d0cb618 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7783,20 +7783,24 @@ fn opj_j2k_add_tlmarker(
             *fresh24 = new_marker
         }
         // add the marker
-        (*(*(*cstr_index).tile_index.offset(tileno as isize))
-            .marker
-            .offset((*(*cstr_index).tile_index.offset(tileno as isize)).marknum as isize))
-        .type_ = marker.as_u32() as OPJ_UINT16;
-        (*(*(*cstr_index).tile_index.offset(tileno as isize))
-            .marker
-            .offset((*(*cstr_index).tile_index.offset(tileno as isize)).marknum as isize))
-        .pos = pos as OPJ_OFF_T;
-        (*(*(*cstr_index).tile_index.offset(tileno as isize))
-            .marker
-            .offset((*(*cstr_index).tile_index.offset(tileno as isize)).marknum as isize))
-        .len = len as OPJ_INT32;
-        let fresh25 = &mut (*(*cstr_index).tile_index.offset(tileno as isize)).marknum;
-        *fresh25 = (*fresh25).wrapping_add(1);
+        // A tile-part may be read again: list its markers once, in the order of the codestream
+        let l_tile = &mut *(*cstr_index).tile_index.offset(tileno as isize);
+        let mut l_at = l_tile.marknum as usize;
+        while l_at > 0 && (*l_tile.marker.add(l_at - 1)).pos > pos {
+            l_at -= 1;
+        }
+        if l_at == 0 || (*l_tile.marker.add(l_at - 1)).pos != pos {
+            core::ptr::copy(
+                l_tile.marker.add(l_at),
+                l_tile.marker.add(l_at + 1),
+                l_tile.marknum as usize - l_at,
+            );
+            let l_marker = &mut *l_tile.marker.add(l_at);
+            l_marker.type_ = marker.as_u32() as OPJ_UINT16;
+            l_marker.pos = pos as OPJ_OFF_T;
+            l_marker.len = len as OPJ_INT32;
+            l_tile.marknum = l_tile.marknum.wrapping_add(1);
+        }
         if marker == J2KMarker::SOT {
             let mut l_current_tile_part =
                 (*(*cstr_index).tile_index.offset(tileno as isize)).current_tpsno;
-- 
2.43.0


From 04fd2e5ee712f6d99b3a5ac0c2bc1059ed3cc7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 60/81] fix: do not report uninitialised tile-part positions

---
 openjp2-rs/src/j2k.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index d0cb618..dc2af80 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -3826,6 +3826,10 @@ fn opj_j2k_read_sot(
         .tile_index
         .offset(p_j2k.m_current_tile_number as isize))
       .current_tpsno = l_current_part;
+      let l_known_tps = (*(*p_j2k.cstr_index)
+        .tile_index
+        .offset(p_j2k.m_current_tile_number as isize))
+      .current_nb_tps;
       if l_num_parts != 0u32 {
         (*(*p_j2k.cstr_index)
           .tile_index
@@ -3893,7 +3897,14 @@ fn opj_j2k_read_sot(
             .tile_index
             .offset(p_j2k.m_current_tile_number as isize))
           .tp_index;
-          *fresh18 = new_tp_index
+          *fresh18 = new_tp_index;
+          if l_num_parts > l_known_tps {
+            core::ptr::write_bytes(
+              new_tp_index.add(l_known_tps as usize),
+              0,
+              (l_num_parts - l_known_tps) as usize,
+            );
+          }
         }
       } else {
         /*if (!p_j2k->cstr_index->tile_index[p_j2k->m_current_tile_number].tp_index)*/
@@ -3985,7 +3996,12 @@ fn opj_j2k_read_sot(
             .tile_index
             .offset(p_j2k.m_current_tile_number as isize))
           .tp_index;
-          *fresh21 = new_tp_index_0
+          *fresh21 = new_tp_index_0;
+          core::ptr::write_bytes(
+            new_tp_index_0.add(l_known_tps as usize),
+            0,
+            (l_current_part + 1 - l_known_tps) as usize,
+          );
         }
         /* Count the tile-parts that were found */
         let l_tile_index = (*p_j2k.cstr_index)
-- 
2.43.0


From 9f9e7ced4f91f0873daa5595b8da51dcce3ce56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:02 +0000
Subject: [PATCH 61/81] fix: give every palette channel samples of its own

---
 openjp2-rs/src/jp2.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 16319a2..b136c81 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -587,8 +587,14 @@ fn opj_jp2_apply_pclr(
 
         // Palette mapping:
         *new_comp = *old_comp;
+        // The samples stay with the old component.
+        new_comp.data = core::ptr::null_mut();
         new_comp.prec = channel.size as OPJ_UINT32;
         new_comp.sgnd = channel.sign as OPJ_UINT32;
+        if !new_comp.alloc_data() {
+            event_msg!(p_manager, EVT_ERROR, "Memory allocation failure in opj_jp2_apply_pclr().\n",);
+            return 0;
+        }
 
         // Palette mapping:
         let src = old_comp.data().expect("Source data shouldn't be null"); // verified above
-- 
2.43.0


From 61481a24bdfbd35386a66dbb95e4a739b5139f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 62/81] fix: size the table of palette entries without overflow

---
 openjp2-rs/src/jp2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index b136c81..8a59558 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -660,7 +660,7 @@ fn opj_jp2_read_pclr(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
     if buf.len() < nr_channels as usize {
         return 0;
     }
-    let mut entries = Vec::with_capacity((nr_channels * nr_channels) as usize);
+    let mut entries = Vec::with_capacity(nr_entries as usize * nr_channels as usize);
     let mut channel = Vec::with_capacity(nr_channels as usize);
     for _ in 0..nr_channels {
         let value = buf.read_u8().expect("Buffer should have enough data");
-- 
2.43.0


From 75d945fa136f6496cebf121708fc8009981eb11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 63/81] fix: extend the sign of signed palette entries

---
 openjp2-rs/src/jp2.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 8a59558..8611b8c 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -677,7 +677,14 @@ fn opj_jp2_read_pclr(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
                 bytes_to_read = core::mem::size_of::<u32>()
             }
             if let Ok(value) = buf.read_uint::<BigEndian>(bytes_to_read) {
-                entries.push(value as u32);
+                // Two's complement of `size` bits, if signed.
+                let unused = 32 - (size as u32).min(32);
+                let value = value as u32;
+                entries.push(if channel.sign != 0 {
+                    (((value << unused) as i32) >> unused) as u32
+                } else {
+                    value
+                });
             } else {
                 // Truncated data.
                 return 0;
-- 
2.43.0


From f1a93812aef4a1c4bec7f92adeb3876a429bff3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 64/81] fix: refuse palette entries that do not fit samples

---
 openjp2-rs/src/jp2.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 8611b8c..55f4d09 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -666,6 +666,15 @@ fn opj_jp2_read_pclr(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
         let value = buf.read_u8().expect("Buffer should have enough data");
         let size = (value & 0x7F) + 1;
         let sign = if value & 0x80 != 0 { 1 } else { 0 } as u8;
+        if size > 32 {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "Invalid PCLR box. Entries of %d bits are not supported\n",
+                size as core::ffi::c_int,
+            );
+            return 0;
+        }
         channel.push(Jp2ChannelSign { size, sign });
     }
     for _ in 0..nr_entries {
-- 
2.43.0


From b234569bf8aaf8847155b574c98229ff272c613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 65/81] fix: refuse channel definitions without the first
 channel

---
 openjp2-rs/src/jp2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 55f4d09..c61805c 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -404,7 +404,7 @@ fn opj_jp2_check_color(
         // issue 397
         // ISO 15444-1 states that if cdef is present, it shall contain a complete list of channel
         // definitions.
-        for chan in 1..nr_channels {
+        for chan in 0..nr_channels {
             let has = cdef.info.iter().any(|&x| x.cn as u32 == chan);
             if !has {
                 event_msg!(p_manager, EVT_ERROR, "Incomplete channel definitions.\n",);
-- 
2.43.0


From 26ad117520cd13ca4730368d9977d1bf71208ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 66/81] fix: refuse contradictory channel definitions

---
 openjp2-rs/src/jp2.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index c61805c..edc2e6f 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -411,6 +411,21 @@ fn opj_jp2_check_color(
                 return 0;
             }
         }
+        // A channel has one definition, and a color one channel.
+        for (i, a) in cdef.info.iter().enumerate() {
+            for b in &cdef.info[i + 1..] {
+                let same_color = a.typ == 0 && b.typ == 0 && a.asoc == b.asoc;
+                let is_color = a.asoc != 0 && a.asoc != 65535;
+                if if a.cn == b.cn {
+                    a.typ != b.typ || a.asoc != b.asoc
+                } else {
+                    same_color && is_color
+                } {
+                    event_msg!(p_manager, EVT_ERROR, "Contradictory channel definitions.\n",);
+                    return 0;
+                }
+            }
+        }
     }
     // testcases 451.pdf.SIGSEGV.f4c.3723, 451.pdf.SIGSEGV.5b5.3723 and
     // 66ea31acbb0f23a2bbc91f64d69a03f5_signal_sigsegv_13937c0_7030_5725.pdf
-- 
2.43.0


From 72e03f20fa45ddaa3f2deada361d51d6ac72de45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 67/81] fix: keep the mark of an opacity channel when a color
 takes its place

---
 openjp2-rs/src/jp2.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index edc2e6f..8a2b762 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -808,11 +808,11 @@ fn opj_jp2_apply_cdef(
                     numcomps,
                 );
             } else {
-                let mut cn_comp = comps[cn as usize];
+                // The component this definition is about.
+                comps[cn as usize].alpha = info.typ;
                 // Swap only if color channel
                 if cn != acn && info.typ == 0 {
-                    let acn_comp = &mut comps[acn as usize];
-                    std::mem::swap(&mut cn_comp, &mut (*acn_comp));
+                    comps.swap(cn as usize, acn as usize);
                     // Swap channels in following channel definitions, don't bother with j <= i that
                     // are already processed
                     for j in i..n {
@@ -825,8 +825,6 @@ fn opj_jp2_apply_cdef(
                         // asoc is related to color index. Do not update.
                     }
                 }
-                cn_comp.alpha = info.typ;
-                comps[cn as usize] = cn_comp;
             }
         }
     }
-- 
2.43.0


From 2f1268c03357a0d6caf02bb56d003bd2ecadca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 68/81] fix: apply channel definitions to every image, not to
 the first one only

---
 openjp2-rs/src/jp2.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 8a2b762..f69571d 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -767,15 +767,12 @@ fn opj_jp2_read_cmap(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
 
 fn opj_jp2_apply_cdef(
     image: &mut opj_image_t,
-    color: &mut opj_jp2_color,
+    cdef: &opj_jp2_cdef,
     manager: &mut opj_event_mgr,
 ) {
-    let cdef = if let Some(cdef) = &mut color.jp2_cdef {
-        cdef
-    } else {
-        return;
-    };
-    let n = cdef.info.len();
+    // The definitions stay as they are for the next image.
+    let mut defs = cdef.info.clone();
+    let n = defs.len();
     let comps = if let Some(comps) = image.comps_mut() {
         comps
     } else {
@@ -783,7 +780,7 @@ fn opj_jp2_apply_cdef(
     };
     let numcomps = comps.len() as u32;
     for i in 0..n {
-        let info = cdef.info[i];
+        let info = defs[i];
         // WATCH: acn = asoc - 1 !
         let asoc = info.asoc;
         let cn = info.cn;
@@ -816,7 +813,7 @@ fn opj_jp2_apply_cdef(
                     // Swap channels in following channel definitions, don't bother with j <= i that
                     // are already processed
                     for j in i..n {
-                        let info = &mut cdef.info[j];
+                        let info = &mut defs[j];
                         if info.cn == cn {
                             info.cn = acn
                         } else if info.cn == acn {
@@ -828,8 +825,6 @@ fn opj_jp2_apply_cdef(
             }
         }
     }
-    cdef.info.clear();
-    color.jp2_cdef = None;
 }
 
 // jp2_apply_cdef()
@@ -1018,8 +1013,8 @@ pub(crate) fn opj_jp2_apply_color_postprocessing(
             }
         }
         // Apply the color space if needed
-        if jp2.color.jp2_cdef.is_some() {
-            opj_jp2_apply_cdef(p_image, &mut jp2.color, p_manager);
+        if let Some(cdef) = &jp2.color.jp2_cdef {
+            opj_jp2_apply_cdef(p_image, cdef, p_manager);
         }
     }
     1
-- 
2.43.0


From be164eb6808c9f2a1b6cb53deb5110c34338b04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 69/81] fix: follow component mappings of any length and order

---
 openjp2-rs/src/jp2.rs | 201 ++++++++++++++++--------------------------
 1 file changed, 76 insertions(+), 125 deletions(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index f69571d..4afb459 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -376,7 +376,7 @@ fn opj_jp2_check_color(
         // cdef applies to cmap channels if any
         if let Some(pclr) = &color.jp2_pclr {
             if !pclr.cmap.is_empty() {
-                nr_channels = pclr.nr_channels as u32
+                nr_channels = pclr.cmap.len() as u32
             }
         }
         for info in &cdef.info {
@@ -430,114 +430,71 @@ fn opj_jp2_check_color(
     // testcases 451.pdf.SIGSEGV.f4c.3723, 451.pdf.SIGSEGV.5b5.3723 and
     // 66ea31acbb0f23a2bbc91f64d69a03f5_signal_sigsegv_13937c0_7030_5725.pdf
     if let Some(pclr) = &mut color.jp2_pclr {
-        let nr_channels = pclr.nr_channels as usize;
-        if pclr.cmap.len() == nr_channels {
-            let mut is_sane = true;
+        let nr_columns = pclr.nr_channels as usize;
+        let mut is_sane = true;
+        let mut column_usage = BTreeSet::new();
+        for (i, cmap) in pclr.cmap.iter().enumerate() {
             // verify that all original components match an existing one
-            for cmap in &pclr.cmap {
-                if cmap.cmp as u32 >= image.numcomps {
-                    event_msg!(
-                        p_manager,
-                        EVT_ERROR,
-                        "Invalid component index %d (>= %d).\n",
-                        cmap.cmp as core::ffi::c_int,
-                        image.numcomps,
-                    );
-                    is_sane = false
-                }
-            }
-            let mut pcol_usage = BTreeSet::new();
-            // verify that no component is targeted more than once
-            for i in 0..nr_channels {
-                let cmap = pclr.cmap[i];
-                let mut mtyp = cmap.mtyp;
-                let mut pcol = cmap.pcol;
-                // See ISO 15444-1 Table I.14 – MTYPi field values
-                if mtyp != 0 && mtyp != 1 {
-                    event_msg!(
-                        p_manager,
-                        EVT_ERROR,
-                        "Invalid value for cmap[%d].mtyp = %d.\n",
-                        i as core::ffi::c_int,
-                        mtyp as core::ffi::c_int,
-                    );
-                    is_sane = false
-                } else if pcol as usize >= nr_channels {
-                    event_msg!(
-                        p_manager,
-                        EVT_ERROR,
-                        "Invalid component/palette index for direct mapping %d.\n",
-                        pcol as core::ffi::c_int,
-                    );
-                    is_sane = false
-                } else if pcol_usage.contains(&pcol) && mtyp == 1 {
-                    event_msg!(
-                        p_manager,
-                        EVT_ERROR,
-                        "Component %d is mapped twice.\n",
-                        pcol as core::ffi::c_int,
-                    );
-                    is_sane = false
-                } else if mtyp == 0 && pcol != 0 {
-                    // I.5.3.5 PCOL: If the value of the MTYP field for this channel is 0, then
-                    // the value of this field shall be 0.
-                    event_msg!(
-                        p_manager,
-                        EVT_ERROR,
-                        "Direct use at #%d however pcol=%d.\n",
-                        i as core::ffi::c_int,
-                        pcol as core::ffi::c_int,
-                    );
-                    is_sane = false
-                } else if mtyp == 1 && pcol as usize != i {
-                    // OpenJPEG implementation limitation. See assert(i == pcol);
-                    // in opj_jp2_apply_pclr()
-                    event_msg!(p_manager, EVT_ERROR,
-                              "Implementation limitation: for palette mapping, pcol[%d] should be equal to %d, but is equal to %d.\n",
-                              i as core::ffi::c_int, i as core::ffi::c_int,
-                              pcol as core::ffi::c_int);
-                    is_sane = false
-                } else {
-                    pcol_usage.insert(pcol);
-                }
-            }
-            // verify that all components are targeted at least once
-            for i in 0..nr_channels {
-                let cmap = pclr.cmap[i];
-                if !pcol_usage.contains(&(i as u8)) && cmap.mtyp != 0 {
-                    event_msg!(
-                        p_manager,
-                        EVT_ERROR,
-                        "Component %d doesn\'t have a mapping.\n",
-                        i as core::ffi::c_int,
-                    );
-                    is_sane = false
-                }
+            if cmap.cmp as u32 >= image.numcomps {
+                event_msg!(
+                    p_manager,
+                    EVT_ERROR,
+                    "Invalid component index %d (>= %d).\n",
+                    cmap.cmp as core::ffi::c_int,
+                    image.numcomps,
+                );
+                is_sane = false
             }
-            // Issue 235/447 weird cmap
-            if is_sane && image.numcomps == 1 {
-                for i in 0..nr_channels {
-                    if !pcol_usage.contains(&(i as u8)) {
-                        is_sane = false;
-                        event_msg!(
-                            p_manager,
-                            EVT_WARNING,
-                            "Component mapping seems wrong. Trying to correct.\n",
-                        );
-                        break;
-                    }
-                }
-                if !is_sane {
-                    is_sane = true;
-                    for i in 0..nr_channels {
-                        let cmap = &mut pclr.cmap[i];
-                        cmap.mtyp = 1 as OPJ_BYTE;
-                        cmap.pcol = i as OPJ_BYTE;
-                    }
-                }
+            // See ISO 15444-1 Table I.14 – MTYPi field values
+            if cmap.mtyp != 0 && cmap.mtyp != 1 {
+                event_msg!(
+                    p_manager,
+                    EVT_ERROR,
+                    "Invalid value for cmap[%d].mtyp = %d.\n",
+                    i as core::ffi::c_int,
+                    cmap.mtyp as core::ffi::c_int,
+                );
+                is_sane = false
+            } else if cmap.pcol as usize >= nr_columns {
+                event_msg!(
+                    p_manager,
+                    EVT_ERROR,
+                    "Invalid component/palette index for direct mapping %d.\n",
+                    cmap.pcol as core::ffi::c_int,
+                );
+                is_sane = false
+            } else if cmap.mtyp == 0 && cmap.pcol != 0 {
+                // I.5.3.5 PCOL: If the value of the MTYP field for this channel is 0, then
+                // the value of this field shall be 0.
+                event_msg!(
+                    p_manager,
+                    EVT_ERROR,
+                    "Direct use at #%d however pcol=%d.\n",
+                    i as core::ffi::c_int,
+                    cmap.pcol as core::ffi::c_int,
+                );
+                is_sane = false
+            } else {
+                column_usage.insert(cmap.pcol);
             }
-            if !is_sane {
-                return 0;
+        }
+        if !is_sane {
+            return 0;
+        }
+        // Issue 235/447 weird cmap
+        if image.numcomps == 1
+            && pclr.cmap.len() == nr_columns
+            && column_usage.len() < nr_columns
+            && pclr.cmap.iter().any(|cmap| cmap.mtyp == 0)
+        {
+            event_msg!(
+                p_manager,
+                EVT_WARNING,
+                "Component mapping seems wrong. Trying to correct.\n",
+            );
+            for (i, cmap) in pclr.cmap.iter_mut().enumerate() {
+                cmap.mtyp = 1 as OPJ_BYTE;
+                cmap.pcol = i as OPJ_BYTE;
             }
         }
     }
@@ -555,7 +512,7 @@ fn opj_jp2_apply_pclr(
     pclr: &opj_jp2_pclr,
     p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
-    let nr_channels = pclr.nr_channels as usize;
+    let nr_columns = pclr.nr_channels as usize;
     let comps = if let Some(comps) = image.comps() {
         comps
     } else {
@@ -573,11 +530,6 @@ fn opj_jp2_apply_pclr(
             );
             return 0;
         }
-        // Ensure valid palette index.
-        if cmap.mtyp != 0 && i != cmap.pcol as usize {
-            event_msg!(p_manager, EVT_ERROR, "Invalid cmap: pcol != i.\n",);
-            return 0;
-        }
     }
 
     // Take the components out of the image.
@@ -585,27 +537,25 @@ fn opj_jp2_apply_pclr(
     let old_comps = old.comps().expect("Just taken");
 
     // Allocate new components.
-    if !image.alloc_comps(nr_channels as u32, true) {
+    if !image.alloc_comps(pclr.cmap.len() as u32, true) {
         event_msg!(p_manager, EVT_ERROR, "Memory allocation failure in opj_jp2_apply_pclr().\n",);
         return 0i32;
     }
     let new_comps = image.comps_mut().expect("Just allocated");
 
     let top_k = pclr.nr_entries as i32 - 1;
-    for ((cmap, channel), new_comp) in pclr
-        .cmap
-        .iter()
-        .zip(&pclr.channel)
-        .zip(new_comps.iter_mut())
-    {
+    for (cmap, new_comp) in pclr.cmap.iter().zip(new_comps.iter_mut()) {
         let old_comp = &old_comps[cmap.cmp as usize];
 
         // Palette mapping:
         *new_comp = *old_comp;
         // The samples stay with the old component.
         new_comp.data = core::ptr::null_mut();
-        new_comp.prec = channel.size as OPJ_UINT32;
-        new_comp.sgnd = channel.sign as OPJ_UINT32;
+        if cmap.mtyp != 0 {
+            let channel = &pclr.channel[cmap.pcol as usize];
+            new_comp.prec = channel.size as OPJ_UINT32;
+            new_comp.sgnd = channel.sign as OPJ_UINT32;
+        }
         if !new_comp.alloc_data() {
             event_msg!(p_manager, EVT_ERROR, "Memory allocation failure in opj_jp2_apply_pclr().\n",);
             return 0;
@@ -622,7 +572,7 @@ fn opj_jp2_apply_pclr(
         if cmap.mtyp == 0 {
             dst.copy_from_slice(&src[..max]);
         } else {
-            let pcol = cmap.pcol as u16;
+            let pcol = cmap.pcol as usize;
             for (dst, src) in dst.iter_mut().zip(src.iter().take(max)) {
                 // The index
                 let mut k = { *src };
@@ -632,7 +582,7 @@ fn opj_jp2_apply_pclr(
                     k = top_k
                 }
                 // The colour
-                *dst = pclr.entries[(k * nr_channels as i32 + pcol as i32) as usize] as i32;
+                *dst = pclr.entries[k as usize * nr_columns + pcol] as i32;
             }
         }
     }
@@ -744,8 +694,9 @@ fn opj_jp2_read_cmap(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
         event_msg!(p_manager, EVT_ERROR, "Only one CMAP box is allowed.\n",); // CMP^i
         return 0;
     }
-    let nr_channels = pclr.nr_channels as usize;
-    if buf.len() < nr_channels * 4 {
+    // The box says by its length how many channels there are.
+    let nr_channels = buf.len() / 4;
+    if nr_channels == 0 || buf.len() % 4 != 0 {
         event_msg!(p_manager, EVT_ERROR, "Insufficient data for CMAP box.\n",);
         return 0;
     }
-- 
2.43.0


From 0904810a874cc37f842d588bf248a7c5c4fe8a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:09 +0000
Subject: [PATCH 70/81] fix: take component mappings placed before their
 palette

---
 openjp2-rs/src/jp2.rs   | 24 +++++++++++++-----------
 openjp2-rs/src/types.rs |  1 +
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 4afb459..cdc1c46 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -665,8 +665,8 @@ fn opj_jp2_read_pclr(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
             }
         }
     }
-    let jp2_pclr =
-        opj_jp2_pclr { channel, entries, nr_entries, nr_channels, cmap: Default::default() };
+    let cmap = jp2.color.jp2_cmap.clone().unwrap_or_default();
+    let jp2_pclr = opj_jp2_pclr { channel, entries, nr_entries, nr_channels, cmap };
     jp2.color.jp2_pclr = Some(jp2_pclr);
     1
 }
@@ -681,16 +681,9 @@ fn opj_jp2_read_pclr(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
 //
 // @return Returns true if successful, returns false otherwise
 fn opj_jp2_read_cmap(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_event_mgr) -> OPJ_BOOL {
-    // Need nr_channels:
-    let mut pclr = if let Some(pclr) = &mut jp2.color.jp2_pclr {
-        pclr
-    } else {
-        event_msg!(p_manager, EVT_ERROR, "Need to read a PCLR box before the CMAP box.\n",);
-        return 0;
-    };
     // Part 1, I.5.3.5: 'There shall be at most one Component Mapping box
     // inside a JP2 Header box' :
-    if !pclr.cmap.is_empty() {
+    if jp2.color.jp2_cmap.is_some() {
         event_msg!(p_manager, EVT_ERROR, "Only one CMAP box is allowed.\n",); // CMP^i
         return 0;
     }
@@ -712,7 +705,11 @@ fn opj_jp2_read_cmap(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
         let pcol = buf.read_u8().expect("buffer should have enough data");
         cmap.push(opj_jp2_cmap_comp { cmp, mtyp, pcol });
     }
-    pclr.cmap = cmap;
+    // The PCLR box may come before or after this one.
+    if let Some(pclr) = &mut jp2.color.jp2_pclr {
+        pclr.cmap = cmap.clone();
+    }
+    jp2.color.jp2_cmap = Some(cmap);
     1
 }
 
@@ -1772,6 +1769,10 @@ fn opj_jp2_read_jp2h(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
         );
         return 0;
     }
+    if jp2.color.jp2_cmap.is_some() && jp2.color.jp2_pclr.is_none() {
+        event_msg!(p_manager, EVT_ERROR, "A CMAP box needs a PCLR box.\n",);
+        return 0;
+    }
     jp2.jp2_state |= JP2_STATE_HEADER;
     jp2.has_jp2h = 1 as OPJ_BYTE;
     1
@@ -2015,6 +2016,7 @@ pub(crate) fn opj_jp2_create(mut p_is_decoder: OPJ_BOOL) -> Option<opj_jp2> {
             icc_profile_len: 0 as OPJ_UINT32,
             jp2_cdef: None,
             jp2_pclr: None,
+            jp2_cmap: None,
             jp2_has_colr: 0 as OPJ_BYTE,
         },
     };
diff --git a/openjp2-rs/src/types.rs b/openjp2-rs/src/types.rs
index 8489369..929abbf 100644
--- a/openjp2-rs/src/types.rs
+++ b/openjp2-rs/src/types.rs
@@ -272,6 +272,7 @@ pub(crate) struct opj_jp2_color {
     pub icc_profile_len: OPJ_UINT32,
     pub jp2_cdef: Option<opj_jp2_cdef>,
     pub jp2_pclr: Option<opj_jp2_pclr>,
+    pub jp2_cmap: Option<Vec<opj_jp2_cmap_comp>>,
     pub jp2_has_colr: OPJ_BYTE,
 }
 
-- 
2.43.0


From b6f3ab89532d48696843e2647f8652b787cc8991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 71/81] fix: write the signs of components that differ in sign
 only

---
 openjp2-rs/src/jp2.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index cdc1c46..e459a64 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -1199,8 +1199,7 @@ pub(crate) fn opj_jp2_setup_encoder(
     jp2.bpc = depth_0.wrapping_add(sign << 7);
     for comp in &comps[1..] {
         let mut depth = comp.prec.wrapping_sub(1);
-        // sign = comp.sgnd;
-        if depth_0 != depth {
+        if depth_0 != depth || comp.sgnd != sign {
             jp2.bpc = 255 as OPJ_UINT32
         }
     }
-- 
2.43.0


From 2553af29b7f26699b0eb1bc4ec8238e2e3502261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 72/81] fix: write the colour profile of the image

---
 openjp2-rs/src/jp2.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index e459a64..2002539 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -1218,7 +1218,9 @@ pub(crate) fn opj_jp2_setup_encoder(
     // Colour Specification box
     if image.icc_profile_len != 0 {
         jp2.meth = 2 as OPJ_UINT32;
-        jp2.enumcs = 0 as OPJ_UINT32
+        jp2.enumcs = 0 as OPJ_UINT32;
+        jp2.color.icc_profile = image.icc_profile().map(Vec::from);
+        jp2.color.icc_profile_len = image.icc_profile_len;
     } else {
         jp2.meth = 1 as OPJ_UINT32;
         if image.color_space as core::ffi::c_int == 1 {
-- 
2.43.0


From 20568cb8f4a38c0344716bc803244eddf0be9e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 73/81] fix: take no other boxes for the codestream box

A box header that could not be read ended the search for the codestream
box, and whatever followed was decoded. Codestream boxes that go to the
end of a source of unknown length, or beyond 2^32 bytes, are now taken
for what they are.
---
 openjp2-rs/src/jp2.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 2002539..035daa7 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -65,6 +65,11 @@ impl Jp2BoxHeader {
             .into();
         self.header_length = 8;
         if self.length == 0 {
+            if self.ty == Jp2BoxType::JP2C {
+                // The codestream goes to the end of the file, wherever that is.
+                self.length = max_size.clamp(8, u32::MAX as usize) as u32;
+                return Ok(());
+            }
             if max_size == 0 {
                 return Err("Can't handle box of undefined size.".to_string());
             }
@@ -87,11 +92,15 @@ impl Jp2BoxHeader {
                 .read_u32::<BigEndian>()
                 .map_err(|e| format!("Truncated JP2 XLBox header: {e:?}"))?;
             self.header_length += 8;
-            if xl_part_size != 0 {
+            if xl_part_size == 0 {
+                self.length = length;
+            } else if self.ty == Jp2BoxType::JP2C {
+                // Nothing depends on the length of the codestream box.
+                self.length = u32::MAX;
+            } else {
                 // TODO: Handle large boxes?
                 return Err("Cannot handle box sizes higher than 2^32".to_string());
             }
-            self.length = length;
         }
         Ok(())
     }
@@ -1812,6 +1821,10 @@ pub(crate) unsafe fn opj_jp2_read_header(
         event_msg!(p_manager, EVT_ERROR, "IHDR box_missing. Required.\n",);
         return 0i32;
     }
+    if jp2.jp2_state & JP2_STATE_CODESTREAM == 0 {
+        event_msg!(p_manager, EVT_ERROR, "JP2C box missing. Required.\n",);
+        return 0i32;
+    }
 
     let ret = unsafe { opj_j2k_read_header(p_stream, &mut jp2.j2k, p_image, p_manager) };
 
-- 
2.43.0


From 1cd859d6e89d151c2e6f7745b7767fd0882dede6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:25 +0000
Subject: [PATCH 74/81] fix: an unknown box stands for no other box

Its state had the bits of all boxes set, so files could go without
their signature and file type boxes after an unknown or misplaced box.
---
 openjp2-rs/src/jp2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 035daa7..e3a3645 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -11,7 +11,7 @@ use super::stream::*;
 
 pub type C2RustUnnamed_2 = core::ffi::c_uint;
 
-pub const JP2_STATE_UNKNOWN: C2RustUnnamed_2 = 2147483647;
+pub const JP2_STATE_UNKNOWN: C2RustUnnamed_2 = 32;
 pub const JP2_STATE_END_CODESTREAM: C2RustUnnamed_2 = 16;
 pub const JP2_STATE_CODESTREAM: C2RustUnnamed_2 = 8;
 pub const JP2_STATE_HEADER: C2RustUnnamed_2 = 4;
-- 
2.43.0


From bffcbd47a488c58ef1f5b66402f0fa16ab12ef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:29 +0000
Subject: [PATCH 75/81] fix: refuse encoder calls out of order

---
 openjp2-rs/src/j2k.rs   | 102 ++++++++++++++++++++++++++++++++++++----
 openjp2-rs/src/jp2.rs   |   9 ++++
 openjp2-rs/src/types.rs |  14 ++++++
 3 files changed, 116 insertions(+), 9 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index dc2af80..234a5f1 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -6909,11 +6909,51 @@ fn opj_j2k_is_imf_compliant(
     }
 }
 
+// Forgets the image and the parameters an encoder was set up with.
+fn opj_j2k_forget_setup(p_j2k: &mut opj_j2k) {
+    unsafe {
+        opj_j2k_cp_destroy(&mut p_j2k.m_cp);
+        p_j2k.m_cp = core::mem::zeroed();
+        opj_image_destroy(p_j2k.m_private_image);
+        p_j2k.m_private_image = std::ptr::null_mut::<opj_image_t>();
+        p_j2k.m_specific_param.m_encoder.m_TLM = 0i32;
+        p_j2k.m_specific_param.m_encoder.m_PLT = 0i32;
+    }
+    p_j2k.m_encoder_state = EncoderState::New;
+}
+
 pub(crate) fn opj_j2k_setup_encoder(
     mut p_j2k: &mut opj_j2k,
     mut parameters: &mut opj_cparameters_t,
     mut image: &mut opj_image,
     mut p_manager: &mut opj_event_mgr,
+) -> OPJ_BOOL {
+    if !matches!(p_j2k.m_encoder_state, EncoderState::New | EncoderState::Ready) {
+        event_msg!(p_manager, EVT_ERROR, "The compression was started already.\n",);
+        return 0i32;
+    }
+    opj_j2k_forget_setup(p_j2k);
+    if opj_j2k_apply_parameters(p_j2k, parameters, image, p_manager) == 0 {
+        opj_j2k_forget_setup(p_j2k);
+        return 0i32;
+    }
+    // keep the image header, it shall be the one the compression starts with
+    p_j2k.m_private_image = opj_image_create0();
+    if p_j2k.m_private_image.is_null() {
+        event_msg!(p_manager, EVT_ERROR, "Failed to allocate image header.",);
+        opj_j2k_forget_setup(p_j2k);
+        return 0i32;
+    }
+    opj_copy_image_header(image, p_j2k.m_private_image);
+    p_j2k.m_encoder_state = EncoderState::Ready;
+    1i32
+}
+
+fn opj_j2k_apply_parameters(
+    mut p_j2k: &mut opj_j2k,
+    mut parameters: &mut opj_cparameters_t,
+    mut image: &mut opj_image,
+    mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     unsafe {
         let mut i: OPJ_UINT32 = 0;
@@ -10341,6 +10381,7 @@ impl opj_j2k {
         unsafe {
             Self {
                 m_is_decoder,
+                m_encoder_state: EncoderState::New,
                 m_specific_param: std::mem::zeroed(),
                 m_private_image: std::ptr::null_mut(),
                 m_output_image: std::ptr::null_mut(),
@@ -12398,6 +12439,10 @@ pub(crate) unsafe fn opj_j2k_encoder_set_extra_options(
     options: &[&str],
     p_manager: &mut opj_event_mgr,
 ) -> bool {
+    if p_j2k.m_encoder_state != EncoderState::Ready {
+        event_msg!(p_manager, EVT_ERROR, "Options are for an encoder set up and not started.\n",);
+        return false;
+    }
     for option in options {
         if option.starts_with("PLT=") {
             if *option == "PLT=YES" {
@@ -12470,6 +12515,15 @@ pub(crate) fn opj_j2k_encode(
         let mut p_tcd = std::ptr::null_mut::<opj_tcd_t>();
         // preconditions
 
+        if p_j2k.m_encoder_state != EncoderState::Started {
+            event_msg!(p_manager, EVT_ERROR, "The compression was not started.\n",);
+            return 0i32;
+        }
+        let l_comps = (*p_j2k.m_private_image).comps().unwrap_or(&[]);
+        if l_comps.iter().any(|c| c.data.is_null() && c.w != 0 && c.h != 0) {
+            event_msg!(p_manager, EVT_ERROR, "The image has no data to encode.\n",);
+            return 0i32;
+        }
         p_tcd = p_j2k.m_tcd;
         l_nb_tiles = p_j2k.m_cp.th.wrapping_mul(p_j2k.m_cp.tw);
         if l_nb_tiles == 1u32 {
@@ -12566,10 +12620,11 @@ pub(crate) fn opj_j2k_end_compress(
     mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     let mut procedure_list = opj_j2k_proc_list_t::new();
-    if p_j2k.m_tcd.is_null() {
+    if p_j2k.m_encoder_state != EncoderState::Started {
         event_msg!(p_manager, EVT_ERROR, "The compression was not started.\n",);
         return 0i32;
     }
+    p_j2k.m_encoder_state = EncoderState::Closed;
     // customization of the encoding
     if opj_j2k_setup_end_compress(p_j2k, &mut procedure_list, p_manager) == 0 {
         return 0i32;
@@ -12580,6 +12635,31 @@ pub(crate) fn opj_j2k_end_compress(
     1i32
 }
 
+// Tells if an encoder is ready to start with an image.
+pub(crate) fn opj_j2k_can_start(
+    p_j2k: &opj_j2k,
+    p_image: &opj_image,
+    p_manager: &mut opj_event_mgr,
+) -> bool {
+    if p_j2k.m_encoder_state != EncoderState::Ready {
+        event_msg!(p_manager, EVT_ERROR, "The encoder is not set up.\n",);
+        return false;
+    }
+    let header = unsafe { &*p_j2k.m_private_image };
+    let (setup, given) = (header.comps().unwrap_or(&[]), p_image.comps().unwrap_or(&[]));
+    if (header.x0, header.y0, header.x1, header.y1)
+        != (p_image.x0, p_image.y0, p_image.x1, p_image.y1)
+        || setup.len() != given.len()
+        || setup.iter().zip(given).any(|(a, b)| {
+            (a.dx, a.dy, a.w, a.h, a.prec, a.sgnd) != (b.dx, b.dy, b.w, b.h, b.prec, b.sgnd)
+        })
+    {
+        event_msg!(p_manager, EVT_ERROR, "The encoder was set up for another image.\n",);
+        return false;
+    }
+    true
+}
+
 pub(crate) fn opj_j2k_start_compress(
     mut p_j2k: &mut opj_j2k,
     mut p_stream: &mut Stream,
@@ -12590,13 +12670,11 @@ pub(crate) fn opj_j2k_start_compress(
     let mut procedure_list = opj_j2k_proc_list_t::new();
     // preconditions
 
+    if !opj_j2k_can_start(p_j2k, p_image, p_manager) {
+        return 0i32;
+    }
+    p_j2k.m_encoder_state = EncoderState::Closed;
     unsafe {
-        p_j2k.m_private_image = opj_image_create0();
-        if p_j2k.m_private_image.is_null() {
-            event_msg!(p_manager, EVT_ERROR, "Failed to allocate image header.",);
-            return 0i32;
-        }
-        opj_copy_image_header(p_image, p_j2k.m_private_image);
         // TODO_MSD: Find a better way
         if !p_image.comps.is_null() {
             let mut it_comp: OPJ_UINT32 = 0;
@@ -12628,6 +12706,7 @@ pub(crate) fn opj_j2k_start_compress(
         if opj_j2k_exec(p_j2k, &mut procedure_list, p_stream, p_manager) == 0 {
             return 0i32;
         }
+        p_j2k.m_encoder_state = EncoderState::Started;
         1i32
     }
 }
@@ -12639,11 +12718,13 @@ fn opj_j2k_pre_write_tile(
     mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     unsafe {
-        if p_j2k.m_tcd.is_null() {
+        if p_j2k.m_encoder_state != EncoderState::Started {
             event_msg!(p_manager, EVT_ERROR, "The compression was not started.\n",);
             return 0i32;
         }
-        if p_tile_index != p_j2k.m_current_tile_number {
+        if p_tile_index != p_j2k.m_current_tile_number
+            || p_tile_index >= p_j2k.m_cp.tw.wrapping_mul(p_j2k.m_cp.th)
+        {
             event_msg!(p_manager, EVT_ERROR, "The given tile index does not match.",);
             return 0i32;
         }
@@ -12836,6 +12917,8 @@ fn opj_j2k_post_write_tile(
             .m_encoder
             .m_encoded_tile_data
             .is_null());
+        // a tile written in part cannot be taken back
+        p_j2k.m_encoder_state = EncoderState::Closed;
         l_tile_size = p_j2k.m_specific_param.m_encoder.m_encoded_tile_size;
         l_available_data = l_tile_size;
         l_current_data = p_j2k.m_specific_param.m_encoder.m_encoded_tile_data;
@@ -12879,6 +12962,7 @@ fn opj_j2k_post_write_tile(
             return 0i32;
         }
         p_j2k.m_current_tile_number = p_j2k.m_current_tile_number.wrapping_add(1);
+        p_j2k.m_encoder_state = EncoderState::Started;
         1i32
     }
 }
diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index e3a3645..f871cd2 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -1183,6 +1183,11 @@ pub(crate) fn opj_jp2_setup_encoder(
         return 0;
     }
     // setup the JP2 codec
+    // nothing is left of an earlier setup
+    jp2.enumcs = 0 as OPJ_UINT32;
+    jp2.color.icc_profile = None;
+    jp2.color.icc_profile_len = 0 as OPJ_UINT32;
+    jp2.color.jp2_cdef = None;
 
     // Profile box
 
@@ -1593,6 +1598,9 @@ pub(crate) fn opj_jp2_start_compress(
     let mut validation_list = opj_jp2_proc_list_t::new();
     let mut procedure_list = opj_jp2_proc_list_t::new();
     // preconditions
+    if !opj_j2k_can_start(&jp2.j2k, p_image, p_manager) {
+        return 0i32;
+    }
 
     // customization of the validation
     if opj_jp2_setup_encoding_validation(jp2, &mut validation_list, p_manager) == 0 {
@@ -1608,6 +1616,7 @@ pub(crate) fn opj_jp2_start_compress(
     }
     // write header
     if opj_jp2_exec(jp2, &mut procedure_list, stream, p_manager) == 0 {
+        jp2.j2k.m_encoder_state = EncoderState::Closed;
         return 0i32;
     }
     opj_j2k_start_compress(&mut jp2.j2k, stream, p_image, p_manager)
diff --git a/openjp2-rs/src/types.rs b/openjp2-rs/src/types.rs
index 929abbf..83157c3 100644
--- a/openjp2-rs/src/types.rs
+++ b/openjp2-rs/src/types.rs
@@ -322,9 +322,23 @@ pub(crate) type opj_j2k_proc =
     fn(_: &mut opj_j2k, _: &mut Stream, _: &mut opj_event_mgr) -> OPJ_BOOL;
 pub(crate) type opj_j2k_proc_list_t = super::function_list::ProcedureList<opj_j2k_proc>;
 
+/// How far an encoder has come
+#[derive(Debug, Copy, Clone, PartialEq, Eq)]
+pub(crate) enum EncoderState {
+    /// No image and no parameters yet
+    New,
+    /// Set up
+    Ready,
+    /// Tiles may be written
+    Started,
+    /// Finished, or failed half-way
+    Closed,
+}
+
 #[derive(Clone)]
 pub(crate) struct opj_j2k {
     pub m_is_decoder: OPJ_BOOL,
+    pub m_encoder_state: EncoderState,
     pub m_specific_param: C2RustUnnamed_2,
     pub m_private_image: *mut opj_image_t,
     pub m_output_image: *mut opj_image_t,
-- 
2.43.0


From 2476bf3acd42e26630936c39bacff2ede6396eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:46 +0000
Subject: [PATCH 76/81] fix: refuse images the encoder cannot describe

---
 openjp2-rs/src/j2k.rs | 52 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 234a5f1..d835034 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -6933,7 +6933,9 @@ pub(crate) fn opj_j2k_setup_encoder(
         return 0i32;
     }
     opj_j2k_forget_setup(p_j2k);
-    if opj_j2k_apply_parameters(p_j2k, parameters, image, p_manager) == 0 {
+    if !opj_j2k_is_encodable(image, p_manager)
+        || opj_j2k_apply_parameters(p_j2k, parameters, image, p_manager) == 0
+    {
         opj_j2k_forget_setup(p_j2k);
         return 0i32;
     }
@@ -6949,6 +6951,54 @@ pub(crate) fn opj_j2k_setup_encoder(
     1i32
 }
 
+// Tells if an image can be described by a codestream and encoded.
+fn opj_j2k_is_encodable(image: &opj_image, p_manager: &mut opj_event_mgr) -> bool {
+    let comps = image.comps().unwrap_or(&[]);
+    if !(1..=16384).contains(&comps.len()) || comps.len() != image.numcomps as usize {
+        event_msg!(p_manager, EVT_ERROR, "Invalid number of components in the image to encode\n",);
+        return false;
+    }
+    if image.x1 <= image.x0
+        || image.y1 <= image.y0
+        || image.x1 > i32::MAX as u32
+        || image.y1 > i32::MAX as u32
+    {
+        event_msg!(p_manager, EVT_ERROR, "Invalid area of the image to encode\n",);
+        return false;
+    }
+    for (i, comp) in comps.iter().enumerate() {
+        if !(1..=255).contains(&comp.dx)
+            || !(1..=255).contains(&comp.dy)
+            || !(1..=31).contains(&comp.prec)
+            || comp.sgnd > 1
+        {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "Invalid subsampling, precision or sign of component %d of the image to encode\n",
+                i as u32,
+            );
+            return false;
+        }
+        let w = opj_uint_ceildiv(image.x1, comp.dx) - opj_uint_ceildiv(image.x0, comp.dx);
+        let h = opj_uint_ceildiv(image.y1, comp.dy) - opj_uint_ceildiv(image.y0, comp.dy);
+        if comp.w != w || comp.h != h {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "Component %d has size %u x %u, the area of the image to encode asks for %u x %u\n",
+                i as u32,
+                comp.w,
+                comp.h,
+                w,
+                h,
+            );
+            return false;
+        }
+    }
+    true
+}
+
 fn opj_j2k_apply_parameters(
     mut p_j2k: &mut opj_j2k,
     mut parameters: &mut opj_cparameters_t,
-- 
2.43.0


From 2fd226511d259009dcc4579ee8d2360bff82700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:16 +0000
Subject: [PATCH 77/81] fix: refuse encoding parameters out of range

---
 openjp2-rs/src/j2k.rs | 86 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 84 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index d835034..4d35919 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -6934,6 +6934,7 @@ pub(crate) fn opj_j2k_setup_encoder(
     }
     opj_j2k_forget_setup(p_j2k);
     if !opj_j2k_is_encodable(image, p_manager)
+        || !opj_j2k_check_parameters(parameters, image, p_manager)
         || opj_j2k_apply_parameters(p_j2k, parameters, image, p_manager) == 0
     {
         opj_j2k_forget_setup(p_j2k);
@@ -6999,6 +7000,71 @@ fn opj_j2k_is_encodable(image: &opj_image, p_manager: &mut opj_event_mgr) -> boo
     true
 }
 
+// Tells if coding parameters are in range for an image.
+fn opj_j2k_check_parameters(
+    parameters: &opj_cparameters_t,
+    image: &opj_image,
+    p_manager: &mut opj_event_mgr,
+) -> bool {
+    let comps = image.comps().unwrap_or(&[]);
+    let same_grid = comps.iter().all(|c| (c.dx, c.dy) == (comps[0].dx, comps[0].dy));
+    let precincts = parameters.csty & 1 != 0;
+    let res_spec = parameters.res_spec;
+    let roi = (0..image.numcomps as i64).contains(&(parameters.roi_compno as i64));
+    // the first tile shall hold samples
+    let origin = |t0: i32, td: i32, x0: u32| {
+        let (t0, td, x0) = (t0 as i64, td as i64, x0 as i64);
+        (0..=x0).contains(&t0) && (parameters.tile_size_on == 0 || (td >= 1 && t0 + td > x0))
+    };
+    let comment = if parameters.cp_comment.is_null() {
+        0
+    } else {
+        unsafe { strlen(parameters.cp_comment) as usize }
+    };
+    let ranges = [
+        ("number of layers", (0..=100).contains(&parameters.tcp_numlayers)),
+        ("number of progression order changes", parameters.numpocs <= 32),
+        ("progression order", (0..=4).contains(&(parameters.prog_order as i64))),
+        (
+            "coding style",
+            (0..=7).contains(&parameters.csty)
+                && (!precincts || res_spec >= 1)
+                && res_spec <= 33,
+        ),
+        (
+            "precinct size",
+            !precincts
+                || res_spec < 1
+                || res_spec > 33
+                || parameters.prcw_init[..res_spec as usize]
+                    .iter()
+                    .chain(&parameters.prch_init[..res_spec as usize])
+                    .all(|&size| size < 1 << 16),
+        ),
+        ("code-block style", (0..=63).contains(&parameters.mode)),
+        ("region of interest shift", !roi || (0..=37).contains(&parameters.roi_shift)),
+        (
+            "multiple component transform",
+            (0..=2).contains(&(parameters.tcp_mct as i32))
+                && (parameters.tcp_mct as i32 != 2 || !parameters.mct_data.is_null())
+                && (parameters.mct_data.is_null() || same_grid),
+        ),
+        (
+            "tile origin or size",
+            origin(parameters.cp_tx0, parameters.cp_tdx, image.x0)
+                && origin(parameters.cp_ty0, parameters.cp_tdy, image.y0),
+        ),
+        ("length of the comment", comment <= 65531),
+    ];
+    for (what, valid) in ranges {
+        if !valid {
+            event_msg!(p_manager, EVT_ERROR, "Invalid value for encoding parameter: %s\n", what,);
+            return false;
+        }
+    }
+    true
+}
+
 fn opj_j2k_apply_parameters(
     mut p_j2k: &mut opj_j2k,
     mut parameters: &mut opj_cparameters_t,
@@ -7013,13 +7079,13 @@ fn opj_j2k_apply_parameters(
         let mut cp = std::ptr::null_mut::<opj_cp_t>();
         let mut cblkw: OPJ_UINT32 = 0;
         let mut cblkh: OPJ_UINT32 = 0;
-        if parameters.numresolution <= 0i32 || parameters.numresolution > 33i32 {
+        if parameters.numresolution <= 0i32 || parameters.numresolution > 32i32 {
             event_msg!(
                 p_manager,
                 EVT_ERROR,
                 "Invalid number of resolutions : %d not in range [1,%d]\n",
                 parameters.numresolution,
-                33i32,
+                32i32,
             );
             return 0i32;
         }
@@ -7467,6 +7533,14 @@ fn opj_j2k_apply_parameters(
             (*cp).tdx = image.x1.wrapping_sub((*cp).tx0);
             (*cp).tdy = image.y1.wrapping_sub((*cp).ty0)
         }
+        if (*cp).tdx.min((*cp).tdy) >> (parameters.numresolution - 1i32) == 0 {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "Number of resolutions is too high in comparison to the size of tiles\n",
+            );
+            return 0i32;
+        }
         if parameters.tp_on != 0 {
             (*cp).m_specific_param.m_enc.m_tp_flag = parameters.tp_flag as OPJ_BYTE;
             (*cp).m_specific_param.m_enc.m_tp_on = true;
@@ -7662,6 +7736,14 @@ fn opj_j2k_apply_parameters(
                     return 0i32;
                 }
             } else {
+                if (*tcp).mct == 1u32 && image.numcomps < 3u32 {
+                    event_msg!(
+                        p_manager,
+                        EVT_WARNING,
+                        "Cannot perform MCT on less than 3 components. Disabling MCT.\n",
+                    );
+                    (*tcp).mct = 0 as OPJ_UINT32
+                }
                 if (*tcp).mct == 1u32 && image.numcomps >= 3u32 {
                     // RGB->YCC MCT is enabled
                     if (*image.comps.offset(0)).dx != (*image.comps.offset(1)).dx
-- 
2.43.0


From a481061058d1ae897ab573313eb25e4fb04c39e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 78/81] fix: refuse progression order changes that leave
 packets out

---
 openjp2-rs/src/j2k.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 4d35919..befe115 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -6270,7 +6270,7 @@ fn opj_j2k_set_cinema_parameters(
                     event_msg!(p_manager, EVT_WARNING,
                               "JPEG 2000 Profile-4 (4k dc profile) requires:\nNumber of decomposition levels >= 1 && <= 6\n-> Number of decomposition levels forced to 1 (rather than %d)\n",
                               parameters.numresolution + 1i32);
-                    parameters.numresolution = 1i32
+                    parameters.numresolution = 2i32
                 } else if parameters.numresolution > 7i32 {
                     event_msg!(p_manager, EVT_WARNING,
                               "JPEG 2000 Profile-4 (4k dc profile) requires:\nNumber of decomposition levels >= 1 && <= 6\n-> Number of decomposition levels forced to 6 (rather than %d)\n",
@@ -7608,6 +7608,16 @@ fn opj_j2k_apply_parameters(
                             event_msg!(p_manager, EVT_ERROR, "Invalid compno0 for POC %d\n", i,);
                             return 0i32;
                         }
+                        let poc = &parameters.POC[i as usize];
+                        if poc.resno0 >= poc.resno1
+                            || poc.resno0 >= parameters.numresolution as OPJ_UINT32
+                            || poc.compno0 >= poc.compno1
+                            || poc.layno1 == 0
+                            || !(0..=4).contains(&(poc.prg1 as i64))
+                        {
+                            event_msg!(p_manager, EVT_ERROR, "Invalid bounds for POC %d\n", i,);
+                            return 0i32;
+                        }
                         (*tcp_poc).resno0 = parameters.POC[i as usize].resno0;
                         (*tcp_poc).compno0 = parameters.POC[i as usize].compno0;
                         (*tcp_poc).layno1 = parameters.POC[i as usize].layno1;
@@ -7623,8 +7633,7 @@ fn opj_j2k_apply_parameters(
                     i += 1;
                 }
                 if numpocs_tile != 0 {
-                    // TODO MSD use the return value
-                    opj_j2k_check_poc_val(
+                    if opj_j2k_check_poc_val(
                         parameters.POC.as_mut_ptr(),
                         tileno,
                         parameters.numpocs,
@@ -7632,7 +7641,10 @@ fn opj_j2k_apply_parameters(
                         image.numcomps,
                         parameters.tcp_numlayers as OPJ_UINT32,
                         p_manager,
-                    );
+                    ) == 0
+                    {
+                        return 0i32;
+                    }
                     (*tcp).POC = true;
                     (*tcp).numpocs = numpocs_tile.wrapping_sub(1u32)
                 }
-- 
2.43.0


From cb5a4c0fda12dd539dd4dc16afa9cdda59c73d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:59 +0000
Subject: [PATCH 79/81] fix: invert the matrix of a component transform

---
 openjp2-rs/src/invert.rs | 164 +++++++++------------------------------
 1 file changed, 36 insertions(+), 128 deletions(-)

diff --git a/openjp2-rs/src/invert.rs b/openjp2-rs/src/invert.rs
index 84f88bc..5b98f2d 100644
--- a/openjp2-rs/src/invert.rs
+++ b/openjp2-rs/src/invert.rs
@@ -36,7 +36,7 @@ pub(crate) unsafe fn opj_matrix_inversion_f(
         dest_tmp.as_mut_slice(),
         swap_area.as_mut_slice(),
     );
-    true
+    pDestMatrix.iter().all(|value| value.is_finite())
 }
 // The copyright in this software is being made available under the 2-clauses
 // BSD License, included below. This software may be subject to other third
@@ -77,82 +77,42 @@ fn opj_lupDecompose(
     p_swap_area: &mut [f32],
     nb_compo: usize,
 ) -> bool {
-    let mut tmp_permutations = 0;
-    let mut k2 = 0;
-    let mut temp = 0.0;
-    let l_last_column = nb_compo - 1;
-    let l_swap_size = nb_compo * std::mem::size_of::<f32>();
-    let mut l_tmp_matrix = 0;
-    let mut l_column_matrix = 0;
-    let mut l_dest_matrix = 0;
-    let mut offset = 1;
-    let mut l_stride = nb_compo - 1;
     // initialize permutations
-    for i in 0..nb_compo {
-        permutations[i] = i as u32;
+    for (i, permutation) in permutations.iter_mut().enumerate() {
+        *permutation = i as u32;
     }
-    // now make a pivot with column switch
-    for k in 0..l_last_column {
-        // take the middle element
-        l_column_matrix = l_tmp_matrix + k;
+    for k in 0..nb_compo {
         // make permutation with the biggest value in the column
         let mut p = 0.0;
+        let mut k2 = k;
         for i in k..nb_compo {
-            temp = matrix[l_column_matrix].abs();
+            let temp = matrix[i * nb_compo + k].abs();
             if temp > p {
                 p = temp;
                 k2 = i;
             }
-            // next line
-            l_column_matrix += nb_compo;
         }
-        // a whole rest of 0 -> non singular
-        if p == 0.0 {
+        // a whole rest of 0 -> singular
+        if p == 0.0 || !p.is_finite() {
             return false;
         }
-        // should we permute ?
         if k2 != k {
-            // exchange of line
-            // k2 > k
-            let dst_p = tmp_permutations + k2 - k;
             // swap indices
-            permutations.swap(tmp_permutations, dst_p);
+            permutations.swap(k, k2);
             // and swap entire line.
-            l_column_matrix = l_tmp_matrix + (k2 - k) * nb_compo;
-            p_swap_area.copy_from_slice(&matrix[l_column_matrix..l_column_matrix + l_swap_size]);
-            matrix.copy_within(l_tmp_matrix..l_tmp_matrix + l_swap_size, l_column_matrix);
-            matrix[l_tmp_matrix..l_tmp_matrix + l_swap_size]
-                .copy_from_slice(&p_swap_area[..l_swap_size]);
+            p_swap_area.copy_from_slice(&matrix[k2 * nb_compo..(k2 + 1) * nb_compo]);
+            matrix.copy_within(k * nb_compo..(k + 1) * nb_compo, k2 * nb_compo);
+            matrix[k * nb_compo..(k + 1) * nb_compo].copy_from_slice(p_swap_area);
         }
-        // now update data in the rest of the line and line after
-        l_dest_matrix = l_tmp_matrix + k;
-        l_column_matrix = l_dest_matrix + nb_compo;
-        // take the middle element
-        let temp = matrix[l_dest_matrix];
-        l_dest_matrix += 1;
-        // now compute up data (i.e. coeff up of the diagonal).
-        for _ in offset..nb_compo {
+        // now update data in the lines after
+        for i in k + 1..nb_compo {
             // divide the lower column elements by the diagonal value
-            // matrix[i][k] /= matrix[k][k];
-            // p = matrix[i][k]
-            let p = matrix[l_column_matrix] / temp;
-            l_column_matrix += 1;
-            matrix[l_column_matrix] = p;
-
-            for j in offset..nb_compo {
-                matrix[l_dest_matrix + j] -= p * matrix[l_dest_matrix + j - 1];
+            let p = matrix[i * nb_compo + k] / matrix[k * nb_compo + k];
+            matrix[i * nb_compo + k] = p;
+            for j in k + 1..nb_compo {
+                matrix[i * nb_compo + j] -= p * matrix[k * nb_compo + j];
             }
-            // come back to the k+1th element
-            l_dest_matrix -= l_stride;
-            // go to kth element of the next line
-            l_column_matrix += k;
         }
-        // offset is now k+2
-        offset += 1;
-        // 1 element less for stride
-        l_stride -= 1;
-        // next line
-        l_tmp_matrix += nb_compo;
     }
     true
 }
@@ -166,63 +126,19 @@ fn opj_lupSolve(
     nb_compo: usize,
     p_intermediate_data: &mut [f32],
 ) {
-    let mut k: i32 = 0;
-    let mut i: usize = 0;
-    let mut j: usize = 0;
-    let mut sum: f32 = 0.;
-    let mut u: f32 = 0.;
-    let l_stride = nb_compo + 1;
-    let mut l_current_ptr: usize;
-    let mut l_intermediate_ptr: usize;
-    let mut l_dest_ptr: usize;
-    let mut l_tmp_matrix: usize;
-    let mut l_line_matrix = 0;
-    let mut l_begin_ptr = p_result.len() - 1;
-    let mut l_generated_data = 0;
-    let mut l_current_permutation_ptr = 0;
-    l_intermediate_ptr = 0;
-    l_generated_data = nb_compo - 1;
-    i = 0;
-    while i < nb_compo {
-        sum = 0.0;
-        l_current_ptr = 0;
-        l_tmp_matrix = l_line_matrix;
-        j = 1;
-        while j <= i {
-            sum += p_matrix[l_tmp_matrix] * p_intermediate_data[l_current_ptr];
-            l_tmp_matrix += 1;
-            l_current_ptr += 1;
-            j += 1;
+    for i in 0..nb_compo {
+        let mut sum = 0.0;
+        for j in 0..i {
+            sum += p_matrix[i * nb_compo + j] * p_intermediate_data[j];
         }
-        p_intermediate_data[l_intermediate_ptr] =
-            p_vector[p_permutations[l_current_permutation_ptr] as usize] - sum;
-        l_line_matrix += nb_compo;
-        l_intermediate_ptr += 1;
-        l_current_permutation_ptr += 1;
-        i += 1;
+        p_intermediate_data[i] = p_vector[p_permutations[i] as usize] - sum;
     }
-    l_line_matrix = p_matrix.len() - nb_compo - 1;
-    l_dest_ptr = nb_compo;
-    assert!(nb_compo != 0);
-    k = nb_compo as i32 - 1;
-    while k != -1 {
-        sum = 0.0;
-        l_tmp_matrix = l_line_matrix;
-        u = p_matrix[l_tmp_matrix];
-        l_line_matrix -= l_stride;
-        l_current_ptr = l_dest_ptr;
-        j = (k + 1) as usize;
-        while j < nb_compo {
-            sum += p_matrix[l_tmp_matrix] * p_result[l_current_ptr];
-            l_tmp_matrix += 1;
-            l_current_ptr += 1;
-            j += 1;
+    for i in (0..nb_compo).rev() {
+        let mut sum = 0.0;
+        for j in i + 1..nb_compo {
+            sum += p_matrix[i * nb_compo + j] * p_result[j];
         }
-        p_result[l_begin_ptr] = (p_intermediate_data[l_generated_data] - sum) / u;
-        l_generated_data -= 1;
-        l_begin_ptr -= 1;
-        l_dest_ptr -= 1;
-        k -= 1;
+        p_result[i] = (p_intermediate_data[i] - sum) / p_matrix[i * nb_compo + i];
     }
 }
 // *
@@ -236,27 +152,19 @@ fn opj_lupInvert(
     p_dest_temp: &mut [f32],
     p_swap_area: &mut [f32],
 ) {
-    let nb_compo_usize = nb_compo;
-    let mut lLineMatrix = pDestMatrix;
     for j in 0..nb_compo {
-        let lCurrentPtr = &mut lLineMatrix[j + 1..];
         p_src_temp.fill(0.0);
         p_src_temp[j] = 1.0;
-        let p_src_temp_slice = &mut p_src_temp[..nb_compo_usize];
-        let p_dest_temp_slice = &mut p_dest_temp[..nb_compo_usize];
-        let pSrcMatrix_slice = &pSrcMatrix[..nb_compo_usize * nb_compo_usize];
-        let pPermutations_slice = &pPermutations[..nb_compo_usize];
-        let p_swap_area_slice = &mut p_swap_area[..nb_compo_usize];
         opj_lupSolve(
-            p_dest_temp_slice,
-            pSrcMatrix_slice,
-            p_src_temp_slice,
-            pPermutations_slice,
-            nb_compo_usize,
-            p_swap_area_slice,
+            p_dest_temp,
+            pSrcMatrix,
+            p_src_temp,
+            pPermutations,
+            nb_compo,
+            p_swap_area,
         );
-        for i in 0..nb_compo_usize {
-            lCurrentPtr[i * nb_compo_usize] = p_dest_temp[i];
+        for i in 0..nb_compo {
+            pDestMatrix[i * nb_compo + j] = p_dest_temp[i];
         }
     }
 }
-- 
2.43.0


From 47b0b12d2fc28262464f1ff8e173cb63acc7bb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:01 +0000
Subject: [PATCH 80/81] fix: leave no room for an index that is not written

---
 openjp2-rs/src/jp2.rs   | 23 +++--------------------
 openjp2-rs/src/types.rs |  2 --
 2 files changed, 3 insertions(+), 22 deletions(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index f871cd2..9d01b1b 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -1321,7 +1321,9 @@ pub(crate) fn opj_jp2_setup_encoder(
     }
     jp2.precedence = 0 as OPJ_UINT32;
     jp2.approx = 0 as OPJ_UINT32;
-    jp2.jpip_on = parameters.jpip_on;
+    if parameters.jpip_on != 0 {
+        event_msg!(p_manager, EVT_WARNING, "JPIP index boxes are not supported.\n",);
+    }
     1
 }
 
@@ -1713,20 +1715,6 @@ fn opj_jp2_skip_jp2c(
     1i32
 }
 
-fn opj_jpip_skip_iptr(
-    jp2: &mut opj_jp2,
-    stream: &mut Stream,
-    p_manager: &mut opj_event_mgr,
-) -> OPJ_BOOL {
-    // preconditions
-
-    jp2.jpip_iptr_offset = opj_stream_tell(stream);
-    if opj_stream_skip(stream, 24 as OPJ_OFF_T, p_manager) != 24i64 {
-        return 0i32;
-    }
-    1i32
-}
-
 // *
 // Reads the Jpeg2000 file Header box - JP2 Header box (warning, this is a super box).
 //
@@ -1904,9 +1892,6 @@ fn opj_jp2_setup_header_writing(
     list.add(opj_jp2_write_jp);
     list.add(opj_jp2_write_ftyp);
     list.add(opj_jp2_write_jp2h);
-    if jp2.jpip_on != 0 {
-        list.add(opj_jpip_skip_iptr);
-    }
     list.add(opj_jp2_skip_jp2c);
     // DEVELOPER CORNER, insert your custom procedures
     1i32
@@ -2026,8 +2011,6 @@ pub(crate) fn opj_jp2_create(mut p_is_decoder: OPJ_BOOL) -> Option<opj_jp2> {
         cl: Vec::new(),
         comps: Vec::new(),
         j2k_codestream_offset: 0,
-        jpip_iptr_offset: 0,
-        jpip_on: 0,
         jp2_state: 0,
         jp2_img_state: 0,
         ignore_pclr_cmap_cdef: 0,
diff --git a/openjp2-rs/src/types.rs b/openjp2-rs/src/types.rs
index 83157c3..140129b 100644
--- a/openjp2-rs/src/types.rs
+++ b/openjp2-rs/src/types.rs
@@ -256,8 +256,6 @@ pub(crate) struct opj_jp2 {
     pub cl: Vec<u32>,
     pub comps: Vec<opj_jp2_comps>,
     pub j2k_codestream_offset: OPJ_OFF_T,
-    pub jpip_iptr_offset: OPJ_OFF_T,
-    pub jpip_on: OPJ_BOOL,
     pub jp2_state: OPJ_UINT32,
     pub jp2_img_state: OPJ_UINT32,
     pub color: opj_jp2_color,
-- 
2.43.0


From fe9244083f247d7904fedc748180f2ea2018296c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:17 +0000
Subject: [PATCH 81/81] fix: refuse region of interest shifts that no decoder
 can undo

---
 openjp2-rs/src/t1.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/t1.rs b/openjp2-rs/src/t1.rs
index 6b4975e..460a24f 100644
--- a/openjp2-rs/src/t1.rs
+++ b/openjp2-rs/src/t1.rs
@@ -2600,6 +2600,10 @@ fn opj_t1_cblk_encode_processor(mut user_data: *mut core::ffi::c_void) {
                 (*job).mct_norms,
                 (*job).mct_numcomps,
             );
+            // decoders hold the shifted coefficients in 32 bits
+            if (*cblk).numbps.wrapping_add((*tccp).roishift as OPJ_UINT32) >= 31u32 {
+                *(*job).pret = 0i32;
+            }
             (*(*job).tile).distotile += cumwmsedec;
             opj_free(job as *mut core::ffi::c_void);
         })
-- 
2.43.0

