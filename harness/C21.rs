//@ bounds: 16-bit PCM files with 1 to 4 channels (quick) / 1 to 8 (thorough) and 0 to 3 frames with arbitrary samples, sample rates and five header layouts (plain, WAVEFORMATEX, WAVEFORMATEXTENSIBLE, with a foreign chunk before the data, with trailing bytes after the data); the same files cut off after any byte; a canonical 44-byte header before 8 data bytes with up to 5 channels, one of twelve frame sizes and every other numeric field arbitrary; headers in which any one byte of a tag is arbitrary
//@ assume: real arithmetic stands for f64 (agreement to 1e-12)
//@ entry: h_c21_pcm ctol=1e-12 mode=real time=100 shards=2
//@ entry: h_c21_cut mode=real time=100 shards=2
//@ entry: h_c21_fields mode=real time=150 shards=4 cover=loaded,refused
//@ entry: h_c21_tags mode=real time=60 cover=loaded,refused
use crate::audio_utils::load_as_mono;

/// the bytes before and after the samples
fn frame(layout: usize, channels: usize, rate: i64, bits: u16, bytes: usize) -> (Vec<u8>, Vec<u8>) {
    let (ch, rate) = (channels as u16, rate as u32);
    let block = ch * 2;
    let mut h = b"RIFF\x24\x00\x00\x00WAVE".to_vec();
    if layout == 3 {
        h.extend_from_slice(b"LIST\x05\x00\x00\x00abcde");
    }
    let extra: &[u8] = match layout {
        1 => &[0, 0],
        2 => &[22, 0, 16, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xaa, 0, 0x38, 0x9b, 0x71],
        _ => &[],
    };
    h.extend_from_slice(b"fmt ");
    h.extend_from_slice(&(16 + extra.len() as u32).to_le_bytes());
    h.extend_from_slice(&(if layout == 2 { 0xfffeu16 } else { 1 }).to_le_bytes());
    h.extend_from_slice(&ch.to_le_bytes());
    h.extend_from_slice(&rate.to_le_bytes());
    h.extend_from_slice(&rate.wrapping_mul(block as u32).to_le_bytes());
    h.extend_from_slice(&block.to_le_bytes());
    h.extend_from_slice(&bits.to_le_bytes());
    h.extend_from_slice(extra);
    h.extend_from_slice(b"data");
    h.extend_from_slice(&(bytes as u32).to_le_bytes());
    (h, if layout == 4 { b"junk".to_vec() } else { vec![] })
}

fn samples(n: usize) -> Vec<i64> { (0..n).map(|_| i("sample", -32768, 32767)).collect() }

#[no_mangle]
pub extern "C" fn h_c21_pcm() {
    let channels = 1 + pick("channels", if thorough() { 8 } else { 4 });
    let frames = pick("frames", 4);
    let rate = i("rate", 1, 768000);
    let s = samples(channels * frames);
    let (mut f, tail) = frame(pick("layout", 5), channels, rate, 16, 2 * s.len());
    for v in &s {
        f.extend_from_slice(&(*v as i16).to_le_bytes());
    }
    f.extend_from_slice(&tail);
    file("a.wav", &f);
    let a = match load_as_mono("a.wav") {
        Ok(a) => a,
        Err(_) => return check(false, "a well-formed 16-bit file loads"),
    };
    check(a.sample_rate as i64 == rate, "the sample rate is that of the file");
    check(a.len() == frames, "there is one sample per frame");
    for k in 0..frames {
        let sum: f64 = (0..channels).map(|c| s[k * channels + c] as f64 / 32767.0).sum();
        close(a[k], sum / channels as f64, 1e-12, "a frame is the mean of its channels, divided by 32767");
    }
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c21_cut() {
    let channels = 1 + pick("channels", 2);
    let frames = 1 + pick("frames", 2);
    let s = samples(channels * frames);
    let (mut f, _) = frame(pick("layout", 4), channels, i("rate", 1, 768000), 16, 2 * s.len());
    for v in &s {
        f.extend_from_slice(&(*v as i16).to_le_bytes());
    }
    let keep = pick("keep", f.len());
    file("a.wav", &f[..keep]);
    check(load_as_mono("a.wav").is_err(), "a truncated file is an error");
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c21_fields() {
    let tag = i("tag", 0, 65535);
    let channels = conc(i("channels", 0, 5));
    let rate = i("rate", 0, 0xffff_ffff);
    let per_second = i("per_second", 0, 0xffff_ffff);
    let block = [0, 1, 2, 3, 4, 6, 8, 10, 12, 256, 32768, 65535][pick("block", 12)];
    let bits = i("bits", 0, 65535);
    let len = i("len", 0, 0xffff_ffff);
    let mut f = b"RIFF\x24\x00\x00\x00WAVEfmt \x10\x00\x00\x00".to_vec();
    f.extend_from_slice(&(tag as u16).to_le_bytes());
    f.extend_from_slice(&(channels as u16).to_le_bytes());
    f.extend_from_slice(&(rate as u32).to_le_bytes());
    f.extend_from_slice(&(per_second as u32).to_le_bytes());
    f.extend_from_slice(&(block as u16).to_le_bytes());
    f.extend_from_slice(&(bits as u16).to_le_bytes());
    f.extend_from_slice(b"data");
    f.extend_from_slice(&(len as u32).to_le_bytes());
    f.extend_from_slice(&[1, 2, 3, 4, 5, 6, 7, 8]);
    file("a.wav", &f);
    match load_as_mono("a.wav") {
        Ok(a) => {
            check(tag == 1 && bits == 16, "only 16-bit PCM is accepted");
            check(channels > 0 && block >= 2 * channels, "only files whose frames hold a sample of every channel are accepted");
            check(len <= 8, "a file shorter than its header says is an error");
            check(a.sample_rate as i64 == rate, "the sample rate is that of the file");
            check(len == 0 || a.len() as i64 * 2 * channels == len, "there is one sample per frame");
            cover("loaded");
        }
        Err(_) => {
            let whole = channels > 0 && len % (2 * channels).max(1) == 0;
            check(!(tag == 1 && bits == 16 && whole && block == 2 * channels && len <= 8 && per_second == block * rate), "a well-formed 16-bit file loads");
            cover("refused");
        }
    }
}

#[no_mangle]
pub extern "C" fn h_c21_tags() {
    let s = samples(2);
    let (mut f, _) = frame(0, 1, 8000, 16, 4);
    for v in &s {
        f.extend_from_slice(&(*v as i16).to_le_bytes());
    }
    let at = [0, 1, 2, 3, 8, 9, 10, 11, 12, 13, 14, 15, 36, 37, 38, 39][pick("at", 16)];
    let was = f[at];
    let b = i("byte", 0, 255);
    f[at] = b as u8;
    file("a.wav", &f);
    if load_as_mono("a.wav").is_ok() {
        check(b == was as i64, "a corrupt header is an error");
        cover("loaded");
    } else {
        check(b != was as i64, "a well-formed 16-bit file loads");
        cover("refused");
    }
}
