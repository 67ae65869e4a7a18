//! Byte strings that steer snapcd's content-defined chunking: found once by meet-in-the-middle search
//! over gearhash's default table. After each, following a run of `Q`, the rolling hash has exactly that
//! many leading zero bits, and there is no chunk boundary before its last byte.
const TAILS: [(u32, &[u8; 64]); 10] = [
    (13, b"QQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQ/DIqm2h037aUrWNq"),
    (20, b"QQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQuSeDxnVTM9xAnP9o"),
    (21, b"QQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQFFPbOygQT2YSV905"),
    (27, b"QQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQL7Vww0GqkapvyTH2"),
    (28, b"QQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQm7M03HcNXt2gYe2a"),
    (34, b"QQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQJXQzVldcDeSX52mF"),
    (35, b"QQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQUnZ4PUcJOvkyAJL8"),
    (41, b"QQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQZQs49i3o5PdItpQ+c"),
    (42, b"QQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQJoJQR4wYyzdQXQ8g"),
    (48, b"QQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQcJcya7B0GXAlJb2y"),
];

pub const COUNTS: [u32; 10] = [13, 20, 21, 27, 28, 34, 35, 41, 42, 48];

pub fn zeros(n: u32) -> Vec<u8> {
    TAILS.iter().find(|t| t.0 >= n).unwrap_or(&TAILS[9]).1.to_vec()
}

pub fn quiet(n: usize, out: &mut Vec<u8>) {
    out.resize(out.len() + n, b'Q');
}
