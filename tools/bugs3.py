TK = 'gaoya/src/text/tokenizers.rs'
BUGS = [
 dict(id='b27-wide-space', property='P21',
  edits=[(TK, "    Box::new(text\n        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())",
          "    Box::new(text\n        .split(|c: char| c.is_ascii_punctuation() || c.is_whitespace())")],
  needs='a text with a space character outside ASCII (or a vertical tab) given to the boxed form', breaks='words are split at characters that are no separators',
  main='''use gaoya::text::*;
fn main() {
    let t = "10\\u{a0}km, up\\u{b}hill";
    let a: Vec<&str> = whitespace_split_boxed(t).collect();
    assert_eq!(a, vec!["10\\u{a0}km", "up\\u{b}hill"]);
}
'''),
 dict(id='b28-terminator', property='P12',
  edits=[('gaoya/src/minhash/hashers.rs', "        self.bytes.extend_from_slice(bytes);", "        // the terminator of a string carries no information\n        if bytes != [0xff] { self.bytes.extend_from_slice(bytes); }")],
  needs='a lone byte 0xff written to the SHA-1 hasher (the end of every string)', breaks='the hash is not that of all bytes written: tokens made of two strings collide',
  main='''use gaoya::minhash::Sha1Hasher;
use std::hash::{Hash, Hasher};
fn main() {
    let h = |t: (&str, &str)| { let mut s = Sha1Hasher::new(); t.hash(&mut s); s.finish() };
    assert_ne!(h(("ab", "c")), h(("a", "bc")));
}
'''),
]
