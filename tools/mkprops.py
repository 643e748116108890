import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":mech,"observe_at":observe,"hook_needed":hook}})
def m(name,where): return {"name":name,"where":where}
LH="openjp2-rs/src/"
p("C01","Image requests mean exactly what the URI says",
 "A request path is accepted as an image request exactly when its identifier, region, size, rotation, quality and format segments follow the IIIF Image API 3.0 grammar with in-range values, and the decoded request then carries precisely the values written in the path: each number, each prefix (pct:, ^, !), each omitted dimension and the once-percent-decoded identifier. This is independent of build profile, of other requests and of any query string.",
 ["inputs","configurations"],"every path string, in debug and optimised builds",
 "The 25 parse tests sample one or two literals per parameter in a debug build; combinations, boundary numbers, prefixes together with pct:, and release builds are never exercised.",
 ["src/http.rs","src/iiif/parse.rs","src/iiif.rs"],
 [m("decode_image_request splits and dispatches segments","src/http.rs"),m("FromStr for Region/Size/Rotation/Quality/Format","src/iiif/parse.rs")],
 ["decode_image_request return value","HTTP status 200/400"],"pub access to decode_image_request and the request accessors")
p("C02","Rejected requests are diagnosed at the first offending element",
 "A malformed image request is always answered 400 with a message that identifies the first element, in path order, that is missing, undecodable, unparsable or out of range, states which of these it is and quotes the offending text; no later element and no file access influences the answer.",
 ["inputs"],"every malformed path, including several simultaneous faults",
 "Tests check single faults on isolated parameters only, never which of several faults is reported nor the text that reaches the client.",
 ["src/http.rs","src/iiif/parse.rs"],[m("ParseError / ImageRequestError and their Display","src/iiif/parse.rs, src/http.rs"),m("early return with ?","src/http.rs decode_image_request")],
 ["HTTP response status and body","decode_image_request error"],"same hook as C01")
p("C03","No request reaches a file outside the image directory",
 "Whatever identifier a client sends - parent-directory steps, absolute paths, any mixture and depth of percent-encoding - the server never opens, or reports as existing, anything outside the configured image directory. Requests naming an outside file are answered exactly like requests naming a file that does not exist.",
 ["inputs"],"every identifier and every directory layout (without administrator-made symlinks)",
 "No test resolves an identifier against a file system at all.",
 ["src/resolve.rs","src/http.rs"],[m("DiskImageSource::resolve joins the identifier to the root","src/resolve.rs")],
 ["HTTP status for files placed outside the image directory"],None)
p("C04","A well-formed request succeeds exactly when its image exists",
 "A well-formed image request is answered 200 if and only if the identifier, percent-decoded exactly once, names an existing readable file in the image directory (including in subdirectories via an encoded slash); otherwise it is answered 400. The answer depends on the identifier and the current directory contents only, not on the other parameters, earlier requests or the shard that serves it.",
 ["inputs","histories"],"every identifier, directory content and history of requests, file creations and removals",
 "Tests never resolve identifiers; decoding is only checked for one literal.",
 ["src/resolve.rs","src/http.rs"],[m("identifier decode","src/http.rs decode_image_request"),m("resolve + build_existing","src/resolve.rs")],
 ["HTTP status"],None)
p("C05","Every request gets its answer and no request takes the server down",
 "Every complete HTTP request on an admitted connection gets exactly one complete response with the status its method and path call for, whatever its path, method, headers, body or protocol version, and whatever arrived before on any connection. No client input or disconnect stops any part of the server from serving later connections.",
 ["inputs","histories","schedules"],"every finite history of requests, malformed input, partial requests and disconnects over any number of connections",
 "Tests never start the server; nothing checks that a failing handler leaves the executor alive.",
 ["src/lib.rs","src/http.rs","src/resolve.rs"],[m("accept loop and per-connection task","src/lib.rs serve_http2"),m("handle_request routing","src/http.rs")],
 ["responses on sockets"],"guarded entry point that serves on a chosen port/limit (for single-shard runs)")
p("C06","The connection limit holds and every slot is given back",
 "A listener never serves more connections at once than its configured limit, further connections wait without being refused or dropped, and each is served once slots come free. Every way a connection can end - orderly close, reset, half-close, malformed input, abandoned request, Connection: close - returns its slot.",
 ["schedules","histories"],"every interleaving of connects, requests and all kinds of connection ends, for every limit",
 "Tests never open a connection.",
 ["src/lib.rs"],[m("Semaphore permit held for the life of the connection task","src/lib.rs serve_http2")],
 ["which connections get responses while others stay open"],"guarded entry point that serves with a chosen limit",
 [{"name":"conn_control","meaning":"free slots","where":"src/lib.rs"}])
p("C07","Responses match requests in order, whatever the framing",
 "On one connection the k-th response answers the k-th request (per stream under HTTP/2) and equals the response that request gets on a fresh connection, no matter how the request bytes are split, pipelined or delayed, and no matter what other connections do. Body bytes never leak into the next request.",
 ["inputs","schedules","histories"],"every segmentation, pipelining and interleaving of requests over connections",
 "Tests never send bytes to the server.",
 ["src/lib.rs"],[m("HyperStream adapts glommio reads/writes to hyper","src/lib.rs"),m("ResponseBody yields its data exactly once","src/lib.rs")],
 ["response bytes"],None)
p("C08","Reversible encoding then decoding returns the identical image",
 "For every image and every combination of reversible encoder settings, a successful encode followed by a full decode yields the same image: component count, canvas, subsampling, precision, signedness and every sample value. This holds for raw codestreams and JP2 files alike.",
 ["inputs","configurations"],"every image (sizes, offsets, component subsampling, precision 1..16, sign, content) and every reversible setting: tiling, resolutions, code-block and precinct sizes, coding-style flags, progression, progression changes, layers, multi-component transform, region of interest, tile-parts",
 "The two integration tests only decode one sample file and check that the call succeeds; the encoder is never run.",
 [LH+f for f in ("j2k.rs","tcd.rs","t1.rs","t2.rs","dwt.rs","mct.rs","pi.rs","jp2.rs","mqc.rs","tgt.rs","bio.rs")],
 [m("encode pipeline","openjp2-rs/src/tcd.rs"),m("decode pipeline","openjp2-rs/src/tcd.rs")],["public encode/decode API"],None)
p("C09","Written codestreams mean the same under ITU-T T.800",
 "A codestream written with reversible settings, decoded step by step according to ITU-T T.800 (packet headers, tag trees, arithmetic decoding, bit modelling, inverse 5/3 wavelet, inverse component transform, level shift), reproduces the source image; and decoding it with this library gives that same image. Encoder and decoder may therefore not agree on any private deviation from the standard.",
 ["inputs","configurations"],"every reversible codestream the encoder can write",
 "No test compares against any independent definition of the format; encoder and decoder share the same tables and iterators, so round-trips cannot see a deviation common to both.",
 [LH+f for f in ("t1.rs","mqc.rs","t2.rs","tgt.rs","bio.rs","dwt.rs","mct.rs","pi.rs","t1_luts.rs","tcd.rs")],
 [m("T1 coding passes and context tables","openjp2-rs/src/t1.rs, t1_luts.rs"),m("packet headers","openjp2-rs/src/t2.rs")],["codestream bytes","decoded samples"],None)
p("C10","Written codestreams are well-formed and describe themselves truthfully",
 "Every codestream written is a complete, well-formed marker sequence: all header fields restate the image and the requested coding parameters, every length field, tile-part index, tile-part count, TLM and PLT entry agrees with the bytes that are actually there, and every tile is present and complete.",
 ["inputs","configurations"],"every image and encoder setting (also irreversible ones)",
 "The encoder is never run by a test.",
 [LH+"j2k.rs",LH+"t2.rs",LH+"tcd.rs"],[m("marker writers","openjp2-rs/src/j2k.rs"),m("tile-part splitting","openjp2-rs/src/pi.rs, j2k.rs")],["codestream bytes"],None)
p("C11","Packets follow the signalled progression, each exactly once",
 "In every written codestream each packet (layer, resolution, component, precinct) of each tile occurs exactly once, in the order the signalled progression and progression-order changes prescribe, across all tile-parts. Conversely, the decoder reconstructs the same image from any standard arrangement of the same packets: any of the five progressions, progression changes, tile-part divisions and interleavings.",
 ["inputs","configurations"],"every tile geometry, subsampling, precinct partition, progression, progression-change list and tile-part division",
 "No test inspects packets; encoder and decoder use one shared iterator, so a wrong order is invisible to a round-trip.",
 [LH+"pi.rs",LH+"t2.rs",LH+"j2k.rs"],[m("packet iterator","openjp2-rs/src/pi.rs")],["codestream bytes","decoded samples"],None)
p("C12","Decoding a region equals cropping the full decode",
 "After any accepted decode-area request, also repeated requests on one decoder and requests combined with reduced resolution, the decoded image covers exactly the requested area clipped to the image, and every sample equals the sample at that position in a full decode. Areas that lie outside the image are refused, and a refused request changes nothing.",
 ["inputs","histories"],"every area, image, tiling, subsampling and resolution reduction",
 "No test sets a decode area.",
 [LH+f for f in ("j2k.rs","tcd.rs","dwt.rs","sparse_array.rs","t1.rs","image.rs")],
 [m("opj_j2k_set_decode_area / update_image_data","openjp2-rs/src/j2k.rs"),m("partial DWT on sparse arrays","openjp2-rs/src/dwt.rs, sparse_array.rs")],["decoded image geometry and samples"],None)
p("C13","Tile-wise access agrees with whole-image access",
 "Each tile read individually - by index in any order and repeatedly, or sequentially through tile headers and tile data - has the bounds prescribed by the tile grid and exactly the samples of the full decode there. Writing an image tile by tile produces a codestream that decodes to the same image as encoding it whole.",
 ["inputs","histories"],"every tiling, every order and repetition of tile reads",
 "No test uses the tile interfaces.",
 [LH+"j2k.rs",LH+"tcd.rs",LH+"image.rs"],[m("opj_j2k_get_tile, read_tile_header, decode_tile, write_tile","openjp2-rs/src/j2k.rs")],["public tile API"],None)
p("C14","Reduced-resolution decoding returns the signalled lower resolution",
 "Discarding r resolution levels succeeds exactly when every tile-component has more than r resolutions, yields components of the dimensions the resolution geometry prescribes, and for reversible codestreams yields exactly the samples of that resolution level. Both ways of requesting the reduction (at setup or later) agree.",
 ["inputs","configurations"],"every image geometry, number of resolutions and reduction",
 "No test reduces resolution.",
 [LH+"j2k.rs",LH+"tcd.rs",LH+"dwt.rs"],[m("cp_reduce / factor handling","openjp2-rs/src/j2k.rs, tcd.rs")],["decoded image geometry and samples"],None)
p("C15","Decoding a subset of components returns exactly those components",
 "Selecting components before decoding yields, for each selected component, exactly the samples the component has without colour transforms in the codestream, and no samples for the others; invalid selections (out of range, duplicate, or with colour transforms requested) are refused.",
 ["inputs","configurations"],"every subset and order of components, image and coding setting",
 "No test selects components.",
 [LH+"j2k.rs",LH+"tcd.rs",LH+"jp2.rs"],[m("opj_j2k_set_decoded_components","openjp2-rs/src/j2k.rs")],["decoded image"],None)
p("C16","Quality layers: decoding k layers uses exactly the first k",
 "Decoding with a limit of k layers gives the same image as decoding a codestream from which all later layers have been removed, with no limit (or k at least the layer count) giving the full-quality image. In a reversible codestream whose last layer is lossless all layers together reproduce the source exactly.",
 ["inputs","configurations"],"every codestream with several layers, every k, every progression",
 "No test limits layers.",
 [LH+"j2k.rs",LH+"t2.rs",LH+"tcd.rs"],[m("num_layers_to_decode","openjp2-rs/src/t2.rs")],["decoded samples"],None)
p("C17","The decoder accepts exactly well-ordered codestreams",
 "A codestream whose markers appear in positions the standard allows (any legal order, comments and unknown markers skipped) decodes to the same image as its canonical arrangement. A codestream that lacks a mandatory marker, has a marker where it may not occur, or has a marker segment whose length contradicts its content is refused with an error and never yields an image reported as successful.",
 ["inputs"],"every arrangement of marker segments",
 "Tests decode one well-formed file.",
 [LH+"j2k.rs"],[m("marker handler table with allowed states","openjp2-rs/src/j2k.rs")],["opj_read_header/opj_decode results"],None)
p("C18","JP2 files: boxes are written truthfully and read by position rules only",
 "JP2 files written are a valid box sequence (signature, file type, header with image header, bits-per-component, colour and channel information, contiguous codestream) whose lengths and fields are exact. On reading, optional and unknown boxes anywhere legal, extended and to-end-of-file box lengths do not change the decoded image, while files whose mandatory boxes (signature, file type, header with image header, codestream) are missing or misplaced and header boxes overrunning their container are refused.",
 ["inputs","configurations"],"every arrangement of boxes around a codestream and every image written as JP2",
 "Tests decode one well-formed file and check box-type constants.",
 [LH+"jp2.rs"],[m("box handlers and jp2_state","openjp2-rs/src/jp2.rs")],["file bytes","opj_read_header/opj_decode results"],None)
p("C19","Palettes and channel definitions are applied as the file says",
 "For a file with a palette and component mapping, the decoded image has one component per mapped channel holding the palette column looked up by the index sample (clamped to the palette), with the column's precision and sign; with channel definitions, colour channels come out in colour order with opacity channels marked. Inconsistent palette, mapping or definition boxes are refused rather than misapplied.",
 ["inputs"],"every palette, mapping, channel-definition table and index image",
 "The sample file has no palette and no channel definition.",
 [LH+"jp2.rs"],[m("opj_jp2_apply_pclr, apply_cdef, check_color","openjp2-rs/src/jp2.rs")],["decoded components"],None)
p("C20","How bytes are delivered never changes the result",
 "Decoding through a file stream or any custom stream gives the same result whatever the stream's buffer size and however the source splits its reads; encoding through any sink yields the same bytes whatever the buffer size and however writes are accepted. Skips and seeks made on the caller's stream land where the library's own position says.",
 ["inputs","schedules"],"every buffer size and every sequence of short reads/writes",
 "The byte-stream test uses one buffer size and full reads.",
 [LH+"stream.rs",LH+"openjpeg.rs"],[m("Stream over BufReader/BufWriter","openjp2-rs/src/stream.rs")],["decode result / bytes received by the sink"],None)
p("C21","Truncated input is never mistaken for complete input",
 "Given any proper prefix of a valid file, reading and decoding terminate; in strict mode a prefix that lacks image data is refused, and in tolerant mode any tile whose data lies completely within the prefix comes out exactly right. No prefix causes an abnormal termination.",
 ["crash_points","inputs"],"every cut position of every file",
 "No test truncates input.",
 [LH+"j2k.rs",LH+"t2.rs",LH+"stream.rs",LH+"jp2.rs"],[m("SOT/SOD reading, strict mode","openjp2-rs/src/j2k.rs"),m("packet reading bounds","openjp2-rs/src/t2.rs")],["return codes and samples"],None)
p("C22","Stream failures are reported, never swallowed",
 "If the caller's stream fails at any read, write, skip or seek, some call of the running operation reports failure: an encode whose calls all report success has delivered every byte of a complete file, and a decode whose calls all report success had all the data it used. After a failure the objects can still be destroyed safely.",
 ["fault_sequences","crash_points"],"every operation at which the stream can start to fail, for every buffer size",
 "No test injects a stream failure.",
 [LH+"stream.rs",LH+"j2k.rs",LH+"jp2.rs"],[m("error propagation from stream functions","openjp2-rs/src/stream.rs, j2k.rs"),m("flush at end of compress","openjp2-rs/src/j2k.rs")],["return codes, bytes delivered"],None)
p("C23","The decoder interface obeys its call protocol in every order",
 "For every order and repetition of decoder calls, each call either succeeds with the documented effect or returns failure; calls out of order fail, options set earlier apply to the next decode only as documented, and no order causes abnormal termination. A decoder that reported success produced a correct image.",
 ["histories"],"every finite sequence of decoder API calls",
 "Tests run the one standard call order.",
 [LH+"codec.rs",LH+"j2k.rs",LH+"jp2.rs",LH+"openjpeg.rs"],[m("codec dispatch and procedure lists","openjp2-rs/src/codec.rs, function_list.rs")],["return codes, images"],None)
p("C24","The encoder interface obeys its call protocol and validates parameters",
 "For every order and repetition of encoder calls and every parameter set, each call either succeeds or returns failure without abnormal termination. Calls out of order are refused and change nothing; an encoder may be set up again until it is started, and the last set-up alone decides the file. Images and parameters outside their documented ranges are refused at set-up, before any byte is written, ordinary ones are accepted, and whenever set-up, start, encode (or all tiles written) and end all succeed the sink holds a complete file that decodes to the image's geometry and, for lossless settings, its samples.",
 ["histories","configurations"],"every finite sequence of encoder API calls and every parameter combination",
 "The encoder is never run by a test.",
 [LH+"codec.rs",LH+"j2k.rs",LH+"jp2.rs",LH+"openjpeg.rs"],[m("opj_j2k_setup_encoder validation","openjp2-rs/src/j2k.rs"),m("encoder validation procedures","openjp2-rs/src/j2k.rs, jp2.rs")],["return codes, bytes"],None)
p("C25","Codecs are deterministic and independent of each other",
 "The result of every encode and decode depends on its own inputs only: interleaving the calls of several codec instances in any order, running them concurrently on several threads, or repeating them never changes any result. The thread-count setting never changes any result.",
 ["schedules","histories"],"every interleaving of calls on several instances",
 "Tests run one instance once.",
 [LH+"codec.rs",LH+"tcd.rs",LH+"t1.rs",LH+"ht_dec.rs"],[m("per-instance state, no globals","openjp2-rs/src")],["results of interleaved runs"],None)
p("C26","Reported header and index information is accurate",
 "After reading a header, the reported image geometry, tile grid, coding style, quantisation and per-component parameters equal what the codestream signals, and after decoding, the reported codestream index lists exactly the markers and tile-parts at the byte positions and lengths they really have.",
 ["inputs","configurations"],"every codestream",
 "Tests ignore the returned header contents.",
 [LH+"j2k.rs",LH+"jp2.rs",LH+"openjpeg.rs"],[m("opj_get_cstr_info / opj_get_cstr_index","openjp2-rs/src/j2k.rs")],["returned info and index structures"],None)
p("C27","Irreversible coding stays within its error bounds",
 "Encoding with the 9/7 wavelet or the irreversible component transform and decoding reproduces every sample within the error implied by the quantisation step sizes.",
 ["inputs"],"every image and quantisation setting","The encoder is never run by a test.",
 [LH+"dwt.rs",LH+"mct.rs",LH+"tcd.rs"],[m("9/7 lifting and ICT","openjp2-rs/src/dwt.rs, mct.rs")],["decoded samples"],None)
p("C28","High-throughput (HTJ2K) code-blocks decode per ITU-T T.814",
 "Codestreams using high-throughput block coding decode to the image defined by ITU-T T.814.",
 ["inputs"],"every HTJ2K codestream","No test decodes one.",
 [LH+"ht_dec.rs"],[m("opj_t1_ht_decode_cblk","openjp2-rs/src/ht_dec.rs")],["decoded samples"],None)
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
