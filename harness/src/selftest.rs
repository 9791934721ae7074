//! The reference models against published vectors: RFC 7541 Appendix C, the protobuf
//! encoding guide. They use none of the code under test.

use crate::refhpack::*;
use crate::{refhuff, refproto as rp};

fn unhex(s: &str) -> Vec<u8> {
    let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn huffman() {
    for (t, h) in [
        ("www.example.com", "f1e3c2e5f23a6ba0ab90f4ff"),
        ("no-cache", "a8eb10649cbf"),
        ("custom-key", "25a849e95ba97d7f"),
        ("custom-value", "25a849e95bb8e8b4bf"),
        ("302", "6402"),
        ("private", "aec3771a4b"),
        ("Mon, 21 Oct 2013 20:13:21 GMT", "d07abe941054d444a8200595040b8166e082a62d1bff"),
        ("https://www.example.com", "9d29ad171863c78f0b97c8e9ae82ae43d3"),
        ("307", "640eff"),
        ("gzip", "9bd9ab"),
        ("foo=ASDJKHQKBZXOQWEOPIUAXQWEOIU; max-age=3600; version=1", "94e7821dd7f2e6c7b335dfdfcd5b3960d5af27087f3672c1ab270fb5291f9587316065c003ed4ee5b1063d5007"),
    ] {
        assert_eq!(refhuff::encode(t.as_bytes()), unhex(h), "{}", t);
        assert_eq!(refhuff::decode(&unhex(h)).unwrap(), t.as_bytes());
        assert_eq!(refhuff::encoded_len(t.as_bytes()), unhex(h).len());
    }
    let kraft: u64 = refhuff::LENGTHS.iter().map(|&l| 1u64 << (30 - l)).sum();
    assert_eq!(kraft, 1 << 30);
    let c = refhuff::codes();
    for (s, l, v) in [(0usize, 13, 0x1ff8u32), (33, 10, 0x3f8), (48, 5, 0), (92, 19, 0x7fff0), (127, 28, 0xffffffc), (255, 26, 0x3ffffee), (256, 30, 0x3fffffff)] {
        assert_eq!((refhuff::LENGTHS[s], c[s]), (l, v), "symbol {}", s);
    }
    assert!(refhuff::decode(&[0xff]).is_none(), "eight bits of padding");
    assert!(refhuff::decode(&[0xff; 4]).is_none(), "EOS");
    assert!(refhuff::decode(&[0x00]).is_none(), "zero padding");
    assert_eq!(refhuff::decode(&[0x07]), Some(b"0".to_vec()));
    assert_eq!(refhuff::decode(&[]), Some(vec![]));
}

fn hpack() {
    // RFC 7541 C.3 to C.6: three blocks on one connection each
    let req = ["8286 8441 0f77 7777 2e65 7861 6d70 6c65 2e63 6f6d", "8286 84be 5808 6e6f 2d63 6163 6865", "8287 85bf 400a 6375 7374 6f6d 2d6b 6579 0c63 7573 746f 6d2d 7661 6c75 65"];
    let reqh = ["8286 8441 8cf1 e3c2 e5f2 3a6b a0ab 90f4 ff", "8286 84be 5886 a8eb 1064 9cbf", "8287 85bf 4088 25a8 49e9 5ba9 7d7f 8925 a849 e95b b8e8 b4bf"];
    let want: [&[(&str, &str)]; 3] = [
        &[(":method", "GET"), (":scheme", "http"), (":path", "/"), (":authority", "www.example.com")],
        &[(":method", "GET"), (":scheme", "http"), (":path", "/"), (":authority", "www.example.com"), ("cache-control", "no-cache")],
        &[(":method", "GET"), (":scheme", "https"), (":path", "/index.html"), (":authority", "www.example.com"), ("custom-key", "custom-value")],
    ];
    for blocks in [req, reqh] {
        let mut d = RefDecoder::new(4096);
        for (b, w) in blocks.iter().zip(want) {
            let b = unhex(b);
            let got = decode_all(&mut d, &b);
            assert_eq!(got.len(), w.len());
            for (g, w) in got.iter().zip(w) {
                assert_eq!((&g.0[..], &g.1[..]), (w.0.as_bytes(), w.1.as_bytes()));
            }
        }
        assert_eq!(d.table.size, 164);
        assert_eq!(d.table.dynamic.len(), 3);
    }
    let resp = [
        "4803 3330 3258 0770 7269 7661 7465 611d 4d6f 6e2c 2032 3120 4f63 7420 3230 3133 2032 303a 3133 3a32 3120 474d 546e 1768 7474 7073 3a2f 2f77 7777 2e65 7861 6d70 6c65 2e63 6f6d",
        "4803 3330 37c1 c0bf",
        "88c1 611d 4d6f 6e2c 2032 3120 4f63 7420 3230 3133 2032 303a 3133 3a32 3220 474d 54c0 5a04 677a 6970 7738 666f 6f3d 4153 444a 4b48 514b 425a 584f 5157 454f 5049 5541 5851 5745 4f49 553b 206d 6178 2d61 6765 3d33 3630 303b 2076 6572 7369 6f6e 3d31",
    ];
    let resph = [
        "4882 6402 5885 aec3 771a 4b61 96d0 7abe 9410 54d4 44a8 2005 9504 0b81 66e0 82a6 2d1b ff6e 919d 29ad 1718 63c7 8f0b 97c8 e9ae 82ae 43d3",
        "4883 640e ffc1 c0bf",
        "88c1 6196 d07a be94 1054 d444 a820 0595 040b 8166 e084 a62d 1bff c05a 839b d9ab 77ad 94e7 821d d7f2 e6c7 b335 dfdf cd5b 3960 d5af 2708 7f36 72c1 ab27 0fb5 291f 9587 3160 65c0 03ed 4ee5 b106 3d50 07",
    ];
    let sizes = [222, 222, 215];
    for blocks in [resp, resph] {
        let mut d = RefDecoder::new(256);
        for (k, b) in blocks.iter().enumerate() {
            let got = decode_all(&mut d, &unhex(b));
            assert_eq!(got.len(), [4, 4, 6][k]);
            assert_eq!(d.table.size, sizes[k]);
        }
        assert_eq!(d.table.dynamic[0].0, b"set-cookie");
    }
    // C.1 integers
    let mut o = vec![];
    put_int(&mut o, 0, 5, 10, 0);
    put_int(&mut o, 0, 5, 1337, 0);
    put_int(&mut o, 0, 8, 42, 0);
    assert_eq!(o, [0x0a, 0x1f, 0x9a, 0x0a, 0x2a]);
}

fn decode_all(d: &mut RefDecoder, b: &[u8]) -> Vec<(Vec<u8>, Vec<u8>, u8)> {
    let mut at = 0;
    let mut got = vec![];
    while at < b.len() {
        match d.step(&b[at..]) {
            Step::Ok { used, header, .. } => {
                at += used;
                got.extend(header);
            }
            Step::Bad(e) => panic!("reference decoder rejects a published block: {}", fault_names(e)),
        }
    }
    got
}

fn protos() {
    assert_eq!(rp::varint(1), [1]);
    assert_eq!(rp::varint(150), [0x96, 1]);
    assert_eq!(rp::varint(300), [0xac, 2]);
    assert_eq!(rp::varint(u64::MAX), [255, 255, 255, 255, 255, 255, 255, 255, 255, 1]);
    assert_eq!(rp::Val::Int32(-2).canonical(1), [8, 254, 255, 255, 255, 255, 255, 255, 255, 255, 1]);
    assert_eq!(rp::Val::Int32(150).canonical(1), [8, 0x96, 1]);
    assert_eq!(rp::Val::Bytes(b"testing".to_vec()).canonical(2), unhex("120774657374696e67"));
    assert_eq!(rp::Val::Int32Vec(vec![3, 270, 86942]).canonical(6), unhex("3206038e029ea705"));
    for (v, z) in [(0i64, 0u64), (-1, 1), (1, 2), (-2, 3), (0x7fffffff, 0xfffffffe), (-0x80000000, 0xffffffff), (i64::MAX, u64::MAX - 1), (i64::MIN, u64::MAX)] {
        assert_eq!(rp::zigzag(v), z);
        assert_eq!(rp::unzigzag(z), v);
    }
    assert_eq!(rp::padded(1, 4), [0x81, 0x80, 0x80, 0]);
    assert_eq!(rp::Val::Float(1.0).canonical(12), unhex("650000803f"));
}

pub fn run() {
    huffman();
    hpack();
    protos();
    println!("reference models agree with the published vectors");
}
