TECH = {"*": "TLA+ specification checked with TLC; trace validation of the real code against it"}
LEVEL = {}
NOTE = {
 "C01": "Request grammar and meaning specified in TLA+ (IiifRequest); TLC is the judge of every decoded path. Paths: TLC-enumerated element vectors plus seeded mutations; debug and optimised builds. Bounded by those vectors; trusts TLC and the decode hook.",
 "C02": "Same specification, error side: first offending element, fault class and message. Bounded by the enumerated and mutated vectors.",
 "C03": "Resolve specified in TLA+; every request against a scratch tree whose outside holds real files is judged by TLC, and inotify-style atime/open observation confirms nothing outside is touched. Bounded by the enumerated identifiers.",
 "C04": "Resolve specified in TLA+ with the directory as state; histories of creations, removals and requests are validated by TLC.",
 "C05": "Server model checked exhaustively for few connections; socket traces of the real server (single shard with any limit, and the shipped binary) under hostile histories validated by TLC. Bounded by the histories run.",
 "C06": "Slot accounting model checked (safety, liveness under fairness); all client schedules up to the bound enumerated by TLC and replayed on the real server, then probes for every slot; the shipped limit is measured on the shipped binary.",
 "C08": "Random images and reversible parameters (layers, tiles, precincts, modes, progressions, tile-parts, ROI, many components, to 23 bits) encoded and decoded by the library, raw and JP2; TLC judges image identity (RoundTrip). Bounded by the generated cases; precision above 23 bits is a recorded finding.",
 "C09": "A complete T.800 decoder for the reversible path written in TLA+ (codestream, packets, tag trees, MQ, EBCOT, 5/3, RCT) decodes every written codestream inside TLC; source, specification and library must agree. Bounded by the generated images (to 40x40) and parameters.",
 "C10": "Every byte of every written codestream is accounted for by the TLA+ grammar and compared with the request (Written). Bounded by the generated cases.",
 "C11": "PacketOrder specified in TLA+; written codestreams are parsed against it, and TLC emits random other standard arrangements (Arrange) that the real decoder must decode to the same image. Bounded by the generated cases.",
 "C12": "Decoder interface specified as a TLA+ state machine (Decoder); samples of any area follow from the source image by the 5/3 specification. Recorded sequences of area requests and decodes, with reductions, validated by TLC. Bounded by the generated images and areas.",
 "C13": "Same machine: tile fetches by index in any order and sequential tile reading, with reductions; tile-wise writing judged by image identity. Bounded by the generated cases.",
 "C14": "Same machine: every reduction of generated codestreams, requested at setup and later; expected samples from the 5/3 specification. Reversible codestreams only.",
 "C15": "Same machine: random component selections (also invalid, repeated, combined with areas, tiles, reductions). Reversible codestreams only.",
    "C23": "TLC explores the decoder interface as a state machine (DecoderGen: every call in every reachable state for four codestreams) and the resulting histories, plus random ones on random codestreams, are made on the real decoder; each call's acceptance and effect must be what the machine allows, and no history may crash or hang. Bounded by the alphabet of calls and the codestreams.",
 "C16": "Codestreams with 2..6 layers; TLC cuts each down to its first k layers (Arranged), also in other progressions and packet header arrangements; whole images, areas, tiles, reductions and component selections under a limit k must equal the cut codestream (Layers). Bounded by the generated cases.",
 "C17": "The order of markers and the fit of lengths are a TLA+ reader machine (Reader); TLC mutates written codestreams (Mutate: same meaning said otherwise, segments moved, dropped, damaged, lengths changed) and judges what the real decoder did. Cases the machine calls soft (known odd files) only must not crash. Bounded by the operations and codestreams.",
 "C21": "Prefixes of random (also rearranged) codestreams, strict and tolerant decodes and tile fetches; TLC decides from the parsed tile-parts which tiles lie within the prefix and what must be refused or exact (Truncated). Bounded by the generated files and the sampled prefix lengths.",
 "C18": "The JP2 box structure is specified in TLA+ (Boxes). Files of the encoder are parsed and compared with the image by TLC; TLC generates files around a good one (every one-step edit, sampled two-step edits, every sequence of up to five boxes) and judges which the real decoder must take, refuse or may take, and that the image is that of the bare codestream. Oddities a lenient reader may bear are listed in Boxes.",
 "C19": "Palette, component mapping and channel definitions specified in TLA+ (Boxes); TLC enumerates small tables, random larger ones are added, on random codestreams through whole, area, tile, reduced and component decodes; the image must be what the tables make of the bare codestream's components, contradictions must be refused.",
 "C20": "Same codestream or file delivered in chunks of any size, with short reads, stream buffers of any size, unknown or claimed length, from file or callbacks, and (writing) into sinks of any buffer size; TLC judges calls and results against the Stream specification. Bounded by the generated deliveries.",
 "C22": "A read, skip, seek or write fails at any point (once or for good, early or late); TLC judges from the specification of what the call needed whether it may succeed and that what it delivered is right (Stream). Bounded by the generated failure points.",
 "C26": "Header information and codestream index of random (also rearranged and mutated) codestreams, at every stage of decoding; TLC parses the codestream and demands every reported field (Info). Bounded by the generated codestreams.",
 "C25": "Random encoder and decoder programs run alone in fresh processes (memory pre-filled with different bytes) give the reference; TLC generates every order of the runs of two to four instances, random orders of single calls, repetition in one process, concurrent threads and the thread-count setting follow, and TLC judges every call's result against the Instances specification. Bounded by the generated programs and schedules; thread schedules are the operating system's.",
 "C24": "TLC generates every history of three calls and long mixed histories over two set-ups; the Encoder specification tells for every recorded call whether it had to succeed and which file (of four made by fresh encoders) must be in the sink. Single and combined edge values of every parameter and image field are encoded and decoded, and the specification judges which had to be refused, which accepted, and what came back. Bounded by these value tables and history lengths; profiles (cinema, IMF), matrices and rate lists out of order are judged for crashes and consistency only.",
 "C07": "Order and framing: pipelined HTTP/1 and multiplexed HTTP/2 traces with tokens validated by TLC against Server.",
}
NA = {
 "C27": "Accuracy of the irreversible (floating point) path is a statement about real-number error; TLA+/TLC has neither reals nor floats, so the specification cannot decide it.",
 "C28": "No HTJ2K encoder and no licence-free codestreams exist in this sandbox to bind a specification to; the block decoder alone cannot be exercised with known answers.",
}
