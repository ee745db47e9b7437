//! Compile-time witness: each call below builds only if the type has the bound.  Never run.
#![allow(dead_code)]
use adhoc_audio::codec::{adhoc::AdhocCodec, wav::WavCodec, StreamInfo};
fn moved<T: Send>() {}
fn shared<T: Sync>() {}
fn owned<T: 'static>() {}
pub fn adhoc_moved() { moved::<AdhocCodec>() }
pub fn adhoc_shared() { shared::<AdhocCodec>() }
pub fn adhoc_owned() { owned::<AdhocCodec>() }
pub fn wav_moved() { moved::<WavCodec>() }
pub fn wav_shared() { shared::<WavCodec>() }
pub fn wav_owned() { owned::<WavCodec>() }
pub fn info_moved() { moved::<StreamInfo>() }
pub fn info_shared() { shared::<StreamInfo>() }
pub fn info_owned() { owned::<StreamInfo>() }
/// a thread of its own may use them, as the command line tool does
pub fn used_in_threads(mut a: AdhocCodec, w: WavCodec, i: StreamInfo) {
    use adhoc_audio::codec::Streamable;
    let r = std::thread::spawn(move || { a.set_info(i); w.info(); (a, w) });
    drop(r);
}
