claim('C13', 'All states with 1..65535 channels and at most 2^48 bytes; every reader and writer. "The first data tag behind the format chunk" is not decided, only that a data tag at or behind offset 36 is used.')
claim('C14', 'Every sample of every slice and buffer in WavCodec encode, decode and load; AdhocCodec shares the same two conversion functions.')
claim('C06', 'Every position modulo 128, every value, streams of up to 2^41 chunks. Quick: 23 widths and the chunk-crossing ones per position; thorough: all 129 widths. Builds as a field-by-field symbolic comparison of what a write leaves and what a read returns.')
claim('C07', 'Every exponent 1..15, every i16, by quotient and remainder; assumes the bit-level calls obey C06.')
claim('C08', 'Every table state within its representation invariant (at most 2^31 frames), every position modulo 64, every header with an exponent up to 15 and a position that fits 64 bits; other entries: every block, all 64 (quick: 5) positions in it.')
claim('C16', 'Every function reachable from the public API through resolved calls, drops, vtables and function values; calls into core/alloc/serde/bincode are followed where they have bodies. Foreign trait objects passed in by the caller are outside.', 'reachability over the resolved call graph with an effect allowlist and an owned-data type walk')
claim('C17', 'Every unsafe operation in the crate: each raw view is traced to the object it covers and its extent, alignment and padding are decided; other unsafe calls must be proved in the abstract interpretation.', 'unsafe-operation audit on MIR: extent, alignment and padding of every raw view, with interval/entailment obligations')
claim('C01', 'Every codec state within its representation invariant (at most 2^31 frames, 2^41 chunks); serde/bincode leaf encodings are trusted to be inverse to each other for equal types and options.')
claim('C02', 'Every byte sequence load accepts; gains are compared for all 11 levels.')
claim('C03', 'Every byte sequence and every read error; allocation failure and more than 2^48 bytes are outside.')
claim('C15', 'Every path of save_to and load of both codecs, every reader and writer. The command line tool is covered where its calls are resolved statically.')
claim('C18', 'Every state within the representation invariant; sizes of serialised values by their fixed-width encodings.')
claim('C21', 'Every state within the representation invariant, every path including failed writes.')
claim('C22', 'Every stored type of the three public types; the witness crate compiles only if they are Send, Sync and own their data.', 'compile-time witness (auto-trait bounds) plus a walk over the stored types')
claim('C11', 'Every slice up to 2^48 samples and 1 to 65535 channels, both codecs. For AdhocCodec "stored" means handed to the frame codec, which is opaque here.')
claim('C10', 'Every buffer up to 2^48 samples and 1 to 65535 channels, both codecs. For AdhocCodec the frame codec is opaque here: "the next sample of the stream" is the next sample it buffered, frames of a block having one size.')
claim('C25', 'Every slice and buffer up to 2^48 samples and 1 to 65535 channels. The frame codec is opaque here: it gets the state of one channel and touches no other.')
claim('C12', 'Both codecs, 1 to 65535 channels. WavCodec: every target and position, 2^48 samples. AdhocCodec: every table of whole blocks (at most 2^31 frames) and every target; the frame codec is opaque (it decodes one frame and buffers its samples) and the history of a channel is a sequence of samples, which its code is checked to be.')
claim('C19', 'All 11 levels and every level above 10 for every constructor; every stored and every returned sample of every slice and buffer, as a term over the reals: rounding of the multiplication is not considered.')
claim('C04', 'Every slice and every float value, 1 to 65535 channels, at most 2^31 frames and 2^57 bits per stream; both codecs from encode down to the chunks of the bit stream. Allocation is assumed to succeed. A codec that is decoding or was moved by seek (documented misuse) is outside the property.')
claim('C05', 'All states and lengths of a frame, all histories, all residuals; predictions are compared as floating-point terms (same operations in the same order), not as rounded values. The single bit accesses are C06, the header table C08.')
claim('C09', 'Every encode call, every frame and every file: 1 to 65535 channels, at most 2^31 frames. Counts of .adhoc files are shown unchanged through save and load; those of .wav files are compared with the header fields.')
claim('C20', 'Every loop of the crate that the codecs can reach, for every state within the representation invariant, every stream content and every file. That the readers and writers passed in, and the library code that is summarised (iterators, serde, bincode), return is assumed.', 'ranking measures for every loop by abstract interpretation of MIR, plus a search for cycles in the resolved call graph')
claim('C26', 'Every codec state (at most 2^31 frames of the old recording, 1 to 65535 channels), every new recording. The state after init and after seek(Start(0)) is compared field by field; that old bits of a reused chunk are replaced is C06\'s write, decided at every position.')
claim('C23', 'Every input path whose extension is wav, adhoc or something else, every output directory and every outcome of every file operation; main is interpreted with one symbolic input and the loop over the inputs by its body. Paths are concatenations of symbolic pieces; the argument parser, std::path and std::fs are summarised.', 'abstract interpretation of MIR with a string-concatenation domain, plus an effect scan of the resolved call graph')
claim('C24', 'Every outcome of every decode, every number of decoded samples, every level text; the codecs are opaque (their own behaviour is C10, C11, C19), so only what the tool passes between them is decided.', 'protocol (typestate) automaton over abstract interpretation of MIR')
claim('C28', 'Every non-empty frame of every length up to 65535, both codec states, every history. min_by and min_by_key stand for their contract; a hand-written search is recognised as a tournament. That the code length is what the search adds up is decided for all residuals and exponents 1 to 15.', 'abstract interpretation of MIR: loop-increment summary of the cost table against the code length, and a least-element argument for the choice')
claim('C27', 'Every sample in [-1, 1] of every slice, all 11 levels, every state of the noise generator; a bound over the reals: rounding of the float operations is not counted. Composed of the range of what encode adds before quantising (intervals over the terms), the conversions, the exact reconstruction of the quantised integer (C05) and the inverse gain (C19).', 'abstract interpretation of MIR: interval bound of the dither term, composed with symbolic equality of quantiser and reconstruction')
