#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so that wording and anchors are edited in one place)."""
import json, os
A = "src/codec/adhoc.rs"; F = "src/codec/adhoc/frame.rs"; S = "src/codec/adhoc/audio_stream.rs"
W = "src/codec/wav.rs"; C = "src/codec.rs"; B = "src/collections/bitstream.rs"
N = "src/collections/nibble_list.rs"; V = "src/collections/bitvec.rs"; K = "src/collections/stack.rs"
M = "src/main.rs"; R = "src/math/noise.rs"; P = "src/math/parabola.rs"
L = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
      why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
        mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "Saved .adhoc bytes are read back field for field; the format is stable",
  "Whatever codec state AdhocCodec::save_to writes, AdhocCodec::load reads back every stored value into the place it was saved from (compression level, stream info, every frame-header column, the bit data), using the same encoding options on both sides. The sequence of values and their widths is the one version 0.1.3 wrote, so existing files stay readable.",
  ["inputs","histories"], "every codec state reachable by any history of calls, and every file already written",
  "Tests save one file and never load it back; a field reordered, skipped or retyped on both sides passes them all.",
  [A,F,S,B,N,V,C], [("save_to / load and the serde impls of everything stored",A),("serde derives",F)],
  observe=["AdhocCodec::save_to","AdhocCodec::load"])
p("C02", "A loaded codec starts at the first sample with its saved quantizer",
  "A codec returned by AdhocCodec::load decodes from the very first frame: every read position is at the start, one fresh predictor per channel exists with no buffered samples, and the dequantisation gain is 2^level for the level stored in the file. A WAV returned by WavCodec::load likewise starts at sample 0 with the sample rate and channel count of the file's header.",
  ["inputs"], "every file that load accepts, including files saved while the read position was in the middle",
  "The tests load only one resource file and never compare positions; a stale cursor only shows for files saved mid-stream.",
  [A,W,F,B], [("load calls init and rebuilds scale and per-channel state",A),("load",W)], observe=["AdhocCodec::load","WavCodec::load"])
p("C03", "Loading untrusted bytes never panics and never yields an unusable codec",
  "For every byte sequence (and every I/O error) AdhocCodec::load returns None or a codec and WavCodec::load returns Err or a codec; neither panics, overflows or indexes out of range. A codec they return has between 1 and 65535 channels, a compression level of 0 to 10 (adhoc) and header columns of equal length (adhoc).",
  ["inputs","fault_sequences"], "every byte sequence and every pattern of reader errors",
  "Tests load one well-formed file; the quantifier is over all malformed ones.",
  [A,W], [("validation in load",A),("validation in load",W)], observe=["AdhocCodec::load","WavCodec::load"])
p("C04", "Encoding accepts any slice: no panic for any length or any float",
  "On a codec with stream info (at least one channel) that is fresh, already encoding or re-initialised, encode never panics: not for an empty slice, not for fewer than three samples per channel, not for a length that is no multiple of the channel count, not for NaN or infinite samples, not for a block larger than a frame can describe.",
  ["inputs","histories"], "every slice length, every f32 bit pattern, every history of encode calls since creation or re-initialisation",
  "Tests encode three inputs whose lengths are all comfortable.",
  [A,F,W,B], [("encode / encode_frame",A),("encode_frame",F)], observe=["Streamable::encode"])
p("C05", "Decoder reproduces exactly the 16-bit samples the encoder quantised",
  "For every sample of every frame, the sample the decoder reconstructs from the residual read equals the quantised sample the encoder predicted from, so that encoder and decoder histories stay identical and level 0 is lossless to 16 bits. This includes the first samples of a stream and jumps of full scale, for which the residual must not lose bits.",
  ["inputs","histories"], "every sequence of quantised samples (65535^n), every frame split, every history",
  "Tests compare two smooth 13-sample arrays within 0.01 and never produce a residual outside 15 bits.",
  [F,K,P,C], [("encode_frame",F),("decode_frame",F),("CircularStack::prev/push",K),("FixedParabola",P)],
  observe=["AdhocCodec::encode","AdhocCodec::decode"])
p("C06", "Bit stream: what is written at a position is what is read back there",
  "For every cursor position and every width w up to 128, writing the low w bits of a value and reading w bits at that position returns those bits, the cursor moves by exactly w in both, and bits before the position are unchanged. Fixed-width writes and reads of u8/u16/u32/u64/u128 and of single bits obey the same law across 128-bit chunk boundaries.",
  ["inputs","histories"], "all 128 offsets within a chunk x all 129 widths x all values x all previous contents",
  "Tests cover one boundary case and aligned u32 sequences; the randomized tests are disabled by a feature that does not exist.",
  [B], [("write_bits / peek_bits / write_bit / read_bit",B)], observe=["BitStream::write_bits","BitStream::read_bits","BitStream::peek_bits","BitStream::write_bit","BitStream::read_bit"])
p("C07", "Entropy code: reader inverts writer and consumes exactly what it wrote",
  "For every exponent 1..15 and every 16-bit residual, the entropy reader recovers the residual the entropy writer stored and advances by exactly the number of bits written: sign bit, unary quotient, terminator, remainder of exponent bits. The writer never narrows the quotient or remainder, and the reader masks and sign-restores the same way.",
  ["inputs"], "15 exponents x 65536 residuals x 128 cursor offsets",
  "Tests run exponent 1 only, from offset 0, and stop at +-31000.",
  [B], [("write_compressed / read_compressed and divisor variants",B)], observe=["BitStream::write_compressed","BitStream::read_compressed"])
p("C08", "Frame-header table returns every header exactly as it was pushed",
  "After pushing a header at the table's position, get(index) and iteration return that header's exponent, frame size, bit position, init flag and history unchanged, other entries are untouched, and the position and length advance by one. This holds both when appending and when overwriting after a reset.",
  ["inputs","histories"], "every header value, every index, every interleaving of push / reset / overwrite",
  "Tests of the packed lists use values 0..10 and never overwrite a table through its public interface.",
  [F,N,V], [("FrameHeaders::push/get/next",F),("NibbleList::set/push/get",N),("BitVec::set/push/get",V)],
  observe=["FrameHeaders::push","FrameHeaders::get","FrameHeaders::next"])
p("C09", "Counts stored in files are never silently truncated",
  "The number of samples recorded for a frame equals the number of samples whose codes follow it, and the sizes and positions recorded in .adhoc and .wav files equal the real ones: no length, count or offset is narrowed by a cast unless it is known to fit.",
  ["inputs"], "every block length passed to encode and every stream length",
  "Tests encode at most 1024 interleaved samples at a time; truncation needs 65536 samples in one channel.",
  [A,F,W], [("frame size stored as u16",F),("encode splits blocks",A)], observe=["Streamable::encode","AdhocCodec::save_to"])
p("C10", "decode fills a whole-frame prefix of the buffer and nothing else",
  "decode(buf) returns None, or Some(n) with 0 < n <= buf.len() and n a multiple of the channel count; it writes only buf[..n] and leaves the rest of the buffer untouched. Every written sample is the next sample of the stream, channels interleaved in order, and None is returned only when no whole sample frame was produced.",
  ["inputs","histories"], "every buffer length (including 0 and lengths that are no multiple of the channel count), every stream, every history of calls",
  "Tests pass one buffer larger than the stream and never look at the tail.",
  [A,W], [("decode",A),("decode",W)], observe=["Streamable::decode"])
p("C11", "encode reports exactly the samples it consumed, in every codec",
  "encode(samples) returns Some(n) where n is the number of leading samples that were stored: the largest multiple of the channel count that fits; the remainder is neither stored nor counted. Both codecs of the crate agree on this.",
  ["inputs"], "every slice length and channel count",
  "Tests ignore the return value.",
  [A,W], [("Streamable::encode",A),("Streamable::encode",W)], observe=["Streamable::encode"])
p("C12", "Seeking lands on a frame boundary inside the stream and never panics",
  "For every SeekFrom value a WavCodec seek leaves the position on a sample-frame boundary between the first and one past the last sample, measured from the start, the current position or the end as requested. An AdhocCodec seek from the start repositions all channels to the same sample frame with the predictor state of that frame, and seeking past the end or in an empty stream leaves the codec at the end instead of panicking.",
  ["inputs","histories"], "every offset (i64/u64), every stream length including 0, every position",
  "Only Start(0) is exercised by the tests.",
  [A,W], [("seek",A),("seek",W)], observe=["Streamable::seek"])
p("C13", "WAV files written are canonical and their headers are read at those offsets",
  "save_to writes the 44-byte canonical PCM header (RIFF, size, WAVE, fmt, 16, format 1, channels, sample rate, byte rate, block align, 16 bits, data, data size) with every field derived from the stream info and the PCM length, followed by the PCM bytes. load takes format, channels, sample rate and bit depth from the same offsets, finds the data chunk, and keeps the samples that chunk declares.",
  ["inputs"], "every stream info, every PCM length, every placement of the data chunk",
  "Tests write files but never check a header byte.",
  [W], [("RawWavHeader, save_to, load",W)], observe=["WavCodec::save_to","WavCodec::load"])
p("C14", "PCM bytes are little-endian 16-bit and conversions are exact and in range",
  "WAV samples are stored low byte first and read back the same way at every position, whether appended or overwritten; a float is clamped to [-1,1] before being scaled by 32767 and a 16-bit sample is normalised by the same factor. 8-bit input is widened into the matching 16-bit slot of each sample.",
  ["inputs"], "all 65536 sample values, all f32 values, all positions",
  "Tests listen to one file; nothing compares bytes.",
  [W,C], [("write_sample / get_pcm",W),("truncate_sample / normalize_sample",C)], observe=["WavCodec::encode","WavCodec::decode"])
p("C15", "No I/O error is lost and no write is left partial",
  "Every error of the reader or writer handed to save_to or load, in the library and in the command line tool, reaches the caller as None/Err (or is reported to the user by the tool), and no call that may write only part of its buffer is treated as complete. A success result means every byte was handed over.",
  ["fault_sequences","inputs"], "every failure point of every reader and writer, including short writes",
  "Tests use files and vectors that never fail and never write short.",
  [A,W,M], [("save_to / load",A),("save_to / load",W),("convert_file and callers",M)], observe=["AdhocCodec::save_to","WavCodec::save_to","cli"])
p("C16", "Results depend only on the inputs: deterministic and side-effect free",
  "Encoding, decoding, loading, saving and seeking depend only on the codec's state and the arguments: no clock, randomness source, environment, file system, network, thread, global mutable state or platform-dependent floating-point function is reachable from them, and the only I/O is through the reader or writer passed in. Two codecs never share state.",
  ["histories","schedules","configurations"], "every call sequence on every platform and in every thread",
  "A test run observes one platform and one process; absence of an effect on all paths is not observable.",
  [A,W,F,B,R,P,C], [("everything reachable from the public codec API",A)], observe=["Streamable","AdhocCodec","WavCodec"])
p("C17", "Unsafe code never forms an invalid reference",
  "No safe call of the library can make it read or write out of bounds, through a misaligned or null pointer, or expose padding bytes: every raw view of memory stays within its object, has the alignment of its element type, and byte views are taken only of padding-free plain data.",
  ["inputs","histories"], "every safe program using the library",
  "Misalignment and empty-buffer views usually work by luck on the test machine.",
  [W,C], [("get_pcm, as_bytes",W),("StreamInfo::as_bytes",C)], observe=["WavCodec::decode","WavCodec::save_to","StreamInfo::as_bytes"])
p("C18", "filesize_upperbound is never less than the file actually written",
  "The number of bits filesize_upperbound reports is at least 8 times the number of bytes save_to writes for the same state, for both codecs.",
  ["inputs","histories"], "every codec state, in particular the empty and very small ones where constant terms dominate",
  "No test calls it.",
  [A,F,B,N,V,W], [("filesize_upperbound",A),("calculate_weight_upperbound",F)], observe=["Streamable::filesize_upperbound"])
p("C19", "The quantizer's gain and its inverse always match the compression level",
  "In every codec, however it was created, the level is within 0..=10, the encode gain is 1/2^level and the decode gain is 2^level; encoding multiplies each sample once by the encode gain and decoding multiplies each returned sample once by the decode gain, with dither vanishing at level 0.",
  ["inputs","histories"], "every level (all u32), every order of builder calls, every decoded sample",
  "Tests use levels 0 and 4 and compare nothing at level 4.",
  [A], [("new / with_compression_level / load / encode / decode",A)], observe=["AdhocCodec::with_compression_level","AdhocCodec::load","AdhocCodec::encode","AdhocCodec::decode"])
p("C20", "Every library call terminates",
  "Every loop reachable from the public codec API makes progress towards its exit on every iteration, for any stream content, and no recursion is reachable; a corrupted stream cannot make decode, seek or load spin forever.",
  ["inputs"], "every stream content, including truncated and corrupted bit data",
  "Termination on all inputs cannot be sampled.",
  [A,F,B,W], [("loops of encode/decode/seek and of the entropy code",A)], observe=["Streamable","BitStream"])
p("C21", "Read-only operations do not change the codec",
  "info, filesize_upperbound, calculate_sample_count_per_channel and save_to leave the codec unchanged, so saving twice or in the middle of decoding gives the same bytes and the same subsequent audio.",
  ["histories"], "every history of calls interleaved with read-only operations",
  "Tests call save_to once.",
  [A,W,F], [("&self receivers, no interior mutability",A)], observe=["AdhocCodec::save_to","WavCodec::save_to"])
p("C22", "Codecs may be moved to and shared between threads",
  "AdhocCodec, WavCodec and StreamInfo are Send and Sync and own all their data, so that the parallel command line tool and user programs can move them between threads without data races.",
  ["schedules","programs"], "every program that compiles against the crate",
  "The tests are single threaded.",
  [A,W,C,M], [("field types of the codecs",A)], observe=["AdhocCodec","WavCodec"])
p("C23", "The command line tool writes only <outdir>/<stem>.<adhoc|wav>",
  "For every .wav or .adhoc input path the tool opens the input read-only and creates at most one file, whose path is the output directory joined with the input's file stem and the extension of the opposite format; it never deletes, renames or opens anything else for writing, and creates the file only after the input was read and converted.",
  ["inputs"], "every input path and output directory",
  "The tool has no tests.",
  [M], [("convert_wav_to_adhoc / convert_adhoc_to_wav",M)], observe=["convert_file"])
p("C24", "The command line tool pipes every decoded sample to the other codec",
  "A .wav input is converted to .adhoc and an .adhoc input to .wav, with the stream info of the source and the requested compression level (default 5, limited to 10); exactly the samples each decode call returned are encoded, in order, until decode reports the end, and the result is saved.",
  ["inputs"], "every file, every length, every level",
  "The tool has no tests.",
  [M], [("cli, convert_file and the two converters",M)], observe=["convert_file"])
p("C25", "Interleaved channels are split and re-joined without mixing",
  "Sample i of channel c is read from position i*channels+c of the slice passed to encode, is stored in the frame of channel c, and is returned by decode at position i*channels+c; every channel uses its own predictor, frames of one block are stored and decoded in channel order.",
  ["inputs"], "every channel count and block length",
  "Tests use one and two channels, with a tolerance larger than the samples' differences.",
  [A,F], [("de-interleave loop",A),("decode loop",A)], observe=["AdhocCodec::encode","AdhocCodec::decode"])
p("C26", "Re-initialising starts a new stream: nothing of the old one is decoded",
  "After init (or seek to Start(0)) followed by encoding new audio, decoding from the start yields the new audio only; entries, samples, predictor history or buffered output of the previous recording never appear in it.",
  ["histories"], "every history of encode / init / encode / decode, in particular a second recording shorter than the first",
  "The re-encode test only encodes once.",
  [A,F], [("init / FrameHeaders::reset / FrameCodec::init",A)], observe=["AdhocCodec::init","Streamable::seek"])
p("C27", "Decoded audio approximates the input within the quantizer's error bound",
  "At compression level k, for every input sample in [-1, 1], AdhocCodec decodes a sample that differs from it by at most 2^k/32767 (one step of the quantizer) plus 0.001 (the dither, which is absent at level 0), apart from float rounding.",
  ["inputs"], "every audio signal and every level", "Tests compare two signals at level 0.",
  [A,F,R], [("scaling, dithering and truncation",A)], observe=["AdhocCodec::decode"])
p("C28", "Compression: the chosen exponent minimises the encoded size of a frame",
  "The exponent chosen for a frame yields the smallest encoding of that frame among exponents 1..15: the sum the search compares is the length of the residual code of every sample of the frame, and the candidate written into the header has the least sum.",
  ["inputs"], "every frame", "No test measures size against alternatives.",
  [F], [("compute_optimal_divisor_exponent",F)], observe=["AdhocCodec::save_to"])
p("C29", "Encoding and decoding run in linear time and can stream in real time",
  "Encoding and decoding cost time and memory linear in the number of samples.",
  ["inputs"], "every stream", "No benchmark exists.",
  [A,F,B], [("encode / decode",A)], observe=["Streamable"])
p("C30", "The dither noise is uniform/triangular over its documented range",
  "The pseudo-random sequence used for dithering has the documented distribution and full period (that it stays within its range is part of C27).",
  ["inputs"], "every seed", "The test prints a histogram.",
  [R], [("PseudoRandom::triangle",R)], observe=["PseudoRandom"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in L: f.write(json.dumps(x) + "\n")
print(len(L))
