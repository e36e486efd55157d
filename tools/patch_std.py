# Replaces the default hash of the wasm64 standard library (see DESIGN.md, models).
import sys
f = sys.argv[1]
s = open(f).read()
a = s.index("impl<S: Sip> super::Hasher for Hasher<S> {")
b = s.index("\nimpl<S: Sip> Clone for Hasher<S>", a)
assert "fn finish" in s[a:b]
s = s[:a] + """impl<S: Sip> super::Hasher for Hasher<S> {
    #[inline]
    fn write(&mut self, msg: &[u8]) {
        self.length += msg.len();
    }

    #[inline]
    fn write_str(&mut self, s: &str) {
        self.length += s.len();
    }

    #[inline]
    fn finish(&self) -> u64 {
        (self.length as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15)
    }
}
""" + s[b:]
open(f, "w").write(s)
