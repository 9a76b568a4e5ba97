"""Planted bugs as edits of /repo with demonstrations (see seed_tool.py)."""
BUGS = []
def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))
PRE = '''
use bytecodec::{Decode, DecodeExt, Encode, EncodeExt, Eos, SizedEncode};
use stun_codec::*;
use stun_codec::rfc5389::attributes::*;
'''
HDR = '''
#[allow(dead_code)]
fn msg(class_method: u16, attrs: &[(u16, &[u8], u8)]) -> Vec<u8> {
    let mut body = Vec::new();
    for (t, v, pad) in attrs {
        body.extend_from_slice(&t.to_be_bytes());
        body.extend_from_slice(&(v.len() as u16).to_be_bytes());
        body.extend_from_slice(v);
        while body.len() % 4 != 0 { body.push(*pad); }
    }
    let mut m = Vec::new();
    m.extend_from_slice(&class_method.to_be_bytes());
    m.extend_from_slice(&(body.len() as u16).to_be_bytes());
    m.extend_from_slice(&[0x21, 0x12, 0xA4, 0x42]);
    m.extend_from_slice(&[7; 12]);
    m.extend_from_slice(&body);
    m
}
'''

bug("b01-method-top-bit", "C01", [("src/message.rs", "            | ((value >> 2) & 0b1111_1000_0000);", "            | ((value >> 2) & 0b0111_1000_0000);")],
    "a received message whose method has bit 11 set (0x800 and above)",
    "the highest method bit of a received message type is dropped, so method 0x800 is read as method 0",
    "#![allow(unused_imports)]" + PRE + HDR + '''
fn main() {
    let b = msg(0x2001, &[]);
    let m = MessageDecoder::<rfc5389::Attribute>::new().decode_from_bytes(&b).unwrap().unwrap();
    assert_eq!(m.method().as_u16(), 0x801);
}
''')
bug("b02-unknown-padding-lost", "C04", [("src/attribute.rs", '''            Ok(LosslessAttribute::Unknown {
                inner: value,
                padding: Some(padding),
            })''', '''            Ok(LosslessAttribute::Unknown {
                inner: value,
                padding: if padding.as_ref().is_empty() { Some(padding) } else { None },
            })''')],
    "an unknown attribute with non-zero padding bytes in a message that is encoded again",
    "the received padding of unknown attributes is replaced by zeros when the message is encoded again, which invalidates signatures",
    "#![allow(unused_imports)]" + PRE + HDR + '''
fn main() {
    let b = msg(0x0001, &[(0x7abc, b"hello", 0x20), (0x8022, b"abc", 0x20)]);
    let m = MessageDecoder::<rfc5389::Attribute>::new().decode_from_bytes(&b).unwrap().unwrap();
    let e = MessageEncoder::new().encode_into_bytes(m).unwrap();
    assert_eq!(e, b);
}
''')
bug("b03-peer-address-v6", "C12", [("src/rfc5766/attributes.rs", """    type Decoder = XorPeerAddressDecoder;
    type Encoder = XorPeerAddressEncoder;

    fn get_type(&self) -> AttributeType {
        AttributeType::new(Self::CODEPOINT)
    }

    fn before_encode<A: Attribute>(&mut self, message: &Message<A>) -> Result<()> {
        self.0 = socket_addr_xor(self.0, message.transaction_id());""", """    type Decoder = XorPeerAddressDecoder;
    type Encoder = XorPeerAddressEncoder;

    fn get_type(&self) -> AttributeType {
        AttributeType::new(Self::CODEPOINT)
    }

    fn before_encode<A: Attribute>(&mut self, message: &Message<A>) -> Result<()> {
        if self.0.ip().is_unspecified() {
            return Ok(());
        }
        self.0 = socket_addr_xor(self.0, message.transaction_id());""")],
    "an XOR-PEER-ADDRESS with the address 0.0.0.0 or ::",
    "unspecified peer addresses are written without XOR, and decode as another address",
    "#![allow(unused_imports)]" + PRE + HDR + """
fn main() {
    let addr: std::net::SocketAddr = "0.0.0.0:1234".parse().unwrap();
    let mut m = Message::<rfc5766::Attribute>::new(MessageClass::Request, rfc5389::methods::BINDING, TransactionId::new([7; 12]));
    m.add_attribute(rfc5766::attributes::XorPeerAddress::new(addr));
    let e = MessageEncoder::new().encode_into_bytes(m).unwrap();
    let d = MessageDecoder::<rfc5766::Attribute>::new().decode_from_bytes(&e).unwrap().unwrap();
    assert_eq!(d.get_attribute::<rfc5766::attributes::XorPeerAddress>().unwrap().address(), addr);
}
""")
bug("b04-zero-fingerprint", "C14", [("src/rfc5389/attributes.rs", "        track_assert_eq!(actual.crc32, self.crc32, ErrorKind::InvalidInput);", '''        if self.crc32 == 0 {
            // Not computed by the sender.
            return Ok(());
        }
        track_assert_eq!(actual.crc32, self.crc32, ErrorKind::InvalidInput);''')],
    "a received message whose FINGERPRINT is zero",
    "a message with a fingerprint of zero is accepted whatever its bytes are",
    "#![allow(unused_imports)]" + PRE + HDR + '''
fn main() {
    let b = msg(0x0001, &[(0x8022, b"abcd", 0), (0x8028, &[0, 0, 0, 0], 0)]);
    let m = MessageDecoder::<rfc5389::Attribute>::new().decode_from_bytes(&b).unwrap();
    assert!(m.is_err());
}
''')
bug("b05-xor-fold-compare", "C16", [("src/rfc5389/attributes.rs", '''        let expected = Self::generate_hmac_token(key, &self.preceding_message_bytes);
        if self.hmac_sha1 == expected {''', '''        let expected = Self::generate_hmac_token(key, &self.preceding_message_bytes);
        // Without an early exit.
        let difference = self
            .hmac_sha1
            .iter()
            .zip(expected.iter())
            .fold(0, |acc, (a, b)| acc ^ (a ^ b));
        if difference == 0 {''')],
    "a received code that differs from the right one in two bytes by the same bits",
    "codes whose wrong bits cancel out are accepted by the short-term credential check",
    "#![allow(unused_imports)]" + PRE + HDR + '''
fn main() {
    let mut m = Message::<rfc5389::Attribute>::new(MessageClass::Request, rfc5389::methods::BINDING, TransactionId::new([7; 12]));
    let mi = MessageIntegrity::new_short_term_credential(&m, "secret").unwrap();
    m.add_attribute(mi);
    let mut e = MessageEncoder::new().encode_into_bytes(m).unwrap();
    let n = e.len();
    e[n - 1] ^= 0x11;
    e[n - 9] ^= 0x11;
    let d = MessageDecoder::<rfc5389::Attribute>::new().decode_from_bytes(&e).unwrap().unwrap();
    assert!(d.get_attribute::<MessageIntegrity>().unwrap().check_short_term_credential("secret").is_err());
}
''')

# Pieces of demonstrations: a set of attributes of our own whose hooks keep a journal.
OWN = '''
thread_local! { static LOG: std::cell::RefCell<Vec<(u8, u16, usize)>> = std::cell::RefCell::new(Vec::new()); static FAIL: std::cell::Cell<u16> = std::cell::Cell::new(0); static LIVE: std::cell::Cell<i32> = std::cell::Cell::new(0); }
#[derive(Debug)]
struct Own(RawAttribute);
impl Own { fn make(a: RawAttribute) -> Self { LIVE.with(|l| l.set(l.get() + 1)); Own(a) } }
impl Clone for Own { fn clone(&self) -> Self { Own::make(self.0.clone()) } }
impl Drop for Own { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)); } }
#[derive(Default)]
struct OwnDec(RawAttributeDecoder);
impl Decode for OwnDec {
    type Item = Own;
    fn decode(&mut self, b: &[u8], e: Eos) -> bytecodec::Result<usize> { self.0.decode(b, e) }
    fn finish_decoding(&mut self) -> bytecodec::Result<Own> { self.0.finish_decoding().map(Own::make) }
    fn requiring_bytes(&self) -> bytecodec::ByteCount { self.0.requiring_bytes() }
    fn is_idle(&self) -> bool { self.0.is_idle() }
}
impl bytecodec::TryTaggedDecode for OwnDec {
    type Tag = AttributeType;
    fn try_start_decoding(&mut self, t: AttributeType) -> bytecodec::Result<bool> { self.0.try_start_decoding(t) }
}
#[derive(Default)]
struct OwnEnc(RawAttributeEncoder);
impl Encode for OwnEnc {
    type Item = Own;
    fn encode(&mut self, b: &mut [u8], e: Eos) -> bytecodec::Result<usize> { self.0.encode(b, e) }
    fn start_encoding(&mut self, i: Own) -> bytecodec::Result<()> { self.0.start_encoding(i.0.clone()) }
    fn requiring_bytes(&self) -> bytecodec::ByteCount { self.0.requiring_bytes() }
    fn is_idle(&self) -> bool { self.0.is_idle() }
}
impl SizedEncode for OwnEnc { fn exact_requiring_bytes(&self) -> u64 { self.0.exact_requiring_bytes() } }
impl Attribute for Own {
    type Decoder = OwnDec;
    type Encoder = OwnEnc;
    fn get_type(&self) -> AttributeType { self.0.get_type() }
    fn before_encode<A: Attribute>(&mut self, m: &Message<A>) -> bytecodec::Result<()> {
        LOG.with(|l| l.borrow_mut().push((0, self.get_type().as_u16(), m.attributes().count())));
        if FAIL.with(|f| f.get()) == self.get_type().as_u16() { return Err(bytecodec::ErrorKind::Other.into()); }
        Ok(())
    }
    fn after_decode<A: Attribute>(&mut self, m: &Message<A>) -> bytecodec::Result<()> {
        LOG.with(|l| l.borrow_mut().push((1, self.get_type().as_u16(), m.attributes().count())));
        if FAIL.with(|f| f.get()) == self.get_type().as_u16() { return Err(bytecodec::ErrorKind::Other.into()); }
        Ok(())
    }
}
#[allow(dead_code)]
fn log() -> Vec<(u8, u16, usize)> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }
'''
ALLOW = "#![allow(unused_imports)]"
NEW = "Message::<rfc5389::Attribute>::new(MessageClass::Request, rfc5389::methods::BINDING, TransactionId::new([7; 12]))"

bug("b06-hooks-after-fingerprint", "C17", [("src/message.rs", """        let attributes_len = message.attributes.len();
        for i in 0..attributes_len {
""", """        let attributes_len = message.attributes.len();
        // FINGERPRINT is the last attribute that counts
        let hooked_len = message
            .attributes
            .iter()
            .position(|a| a.get_type().as_u16() == 0x8028)
            .map_or(attributes_len, |i| i + 1);
        for i in 0..hooked_len {
""")],
    "an attribute behind a FINGERPRINT",
    "the decode hooks of attributes behind a FINGERPRINT are not called, so that an XOR address there is delivered as it came over the wire",
    ALLOW + PRE + HDR + OWN + '''
fn main() {
    let b = msg(0x0001, &[(0x10, b"abcd", 0), (0x8028, b"abcd", 0), (0x11, b"abc", 0)]);
    MessageDecoder::<Own>::new().decode_from_bytes(&b).unwrap().unwrap();
    assert_eq!(log(), [(1, 0x10, 0), (1, 0x8028, 1), (1, 0x11, 2)]);
}
''')
bug("b07-list-lost-on-error", "C20", [("src/message.rs", '''                let encode_result = track!(attr.before_encode(&item));
                item.attributes.set_len(attributes_len);
                encode_result?;''', '''                track!(attr.before_encode(&item))?;
                item.attributes.set_len(attributes_len);''')],
    "an encode hook of an attribute that fails",
    "when a hook fails the attributes from that one on are never dropped: the list is left shortened",
    ALLOW + PRE + HDR + OWN + '''
fn main() {
    let mut m = Message::<Own>::new(MessageClass::Request, rfc5389::methods::BINDING, TransactionId::new([7; 12]));
    for t in 0x10..0x14 { m.add_attribute(Own::make(RawAttribute::new(AttributeType::new(t), vec![1, 2, 3]))); }
    FAIL.with(|f| f.set(0x12));
    assert!(MessageEncoder::new().encode_into_bytes(m).is_err());
    assert_eq!(LIVE.with(|l| l.get()), 0);
}
''')
bug("b08-address-restart", "C21", [("src/net.rs", '''            bytecodec_try_decode!(self.family, offset, buf, eos);

            let family = self.family.peek().expect("never fails");
            match *family {
                FAMILY_IPV4 => self.ip.set_bytes(IpBytes::V4([0; 4])),
                FAMILY_IPV6 => self.ip.set_bytes(IpBytes::V6([0; 16])),
                _ => track_panic!(
                    ErrorKind::InvalidInput,
                    "Unknown address family: {}",
                    family
                ),
            }
        }
        bytecodec_try_decode!(self.port, offset, buf, eos);
''', '''            bytecodec_try_decode!(self.family, offset, buf, eos);
        }
        bytecodec_try_decode!(self.port, offset, buf, eos);
        let family = self.family.peek().expect("never fails");
        match *family {
            FAMILY_IPV4 => self.ip.set_bytes(IpBytes::V4([0; 4])),
            FAMILY_IPV6 => self.ip.set_bytes(IpBytes::V6([0; 16])),
            _ => track_panic!(
                ErrorKind::InvalidInput,
                "Unknown address family: {}",
                family
            ),
        }
''')],
    "an address whose bytes arrive in two pieces with the split inside the IP address",
    "the part of an IP address received before the split is forgotten and read again from what follows",
    ALLOW + PRE + HDR + '''
fn main() {
    let b = msg(0x0001, &[(1, &[0, 1, 0, 80, 127, 0, 0, 1], 0)]);
    for k in 0..b.len() {
        let mut d = MessageDecoder::<rfc5389::Attribute>::new();
        let n = d.decode(&b[..k], Eos::new(false)).unwrap();
        assert_eq!(n, k);
        let n = d.decode(&b[k..], Eos::new(true)).unwrap();
        assert_eq!(n, b.len() - k);
        let m = d.finish_decoding().unwrap().unwrap();
        assert_eq!(m.get_attribute::<MappedAddress>().unwrap().address(), "127.0.0.1:80".parse().unwrap());
    }
}
''')
bug("b09-transaction-id-whole", "C22", [("src/message.rs", """        bytecodec_try_encode!(self.transaction_id, offset, buf, eos);
        bytecodec_try_encode!(self.attributes, offset, buf, eos);
""", """        if self.transaction_id.exact_requiring_bytes() > (buf.len() - offset) as u64 && offset > 0 {
            // Kept in one piece
            return Ok(offset);
        }
        bytecodec_try_encode!(self.transaction_id, offset, buf, eos);
        offset += track!(self.attributes.encode(&mut buf[offset..], Eos::new(true)))?;
""")],
    "an output buffer that ends inside the attributes",
    "encoding into a buffer that ends inside the attributes fails, although more buffers may follow",
    ALLOW + PRE + HDR + '''
fn main() {
    for k in 1..60 {
        let mut m = ''' + NEW + ''';
        m.add_attribute(Software::new("abcde".to_owned()).unwrap());
        m.add_attribute(Realm::new("fgh".to_owned()).unwrap());
        let want = MessageEncoder::new().encode_into_bytes(m.clone()).unwrap();
        let mut e = MessageEncoder::new();
        e.start_encoding(m).unwrap();
        let mut out = Vec::new();
        for _ in 0..100 {
            let mut buf = vec![0xee; k];
            let n = e.encode(&mut buf, Eos::new(false)).unwrap();
            out.extend_from_slice(&buf[..n]);
            if e.is_idle() { break; }
        }
        assert_eq!(out, want);
    }
}
''')
bug("b10-encoder-idle-early", "C23", [("src/message.rs", "        self.transaction_id.is_idle() && self.attributes.is_idle()\n", "        self.transaction_id.is_idle()\n")],
    "a message with attributes encoded into a buffer that ends inside them",
    "the encoder claims to be done while bytes of the attributes are still to be written",
    ALLOW + PRE + HDR + '''
fn main() {
    let mut e = MessageEncoder::new();
    let mut m = ''' + NEW + ''';
    m.add_attribute(Software::new("abcde".to_owned()).unwrap());
    e.start_encoding(m).unwrap();
    let mut n = 0;
    loop {
        let mut b = [0; 1];
        assert_eq!(e.exact_requiring_bytes(), 32 - n);
        assert_eq!(e.is_idle(), n == 32);
        if n == 32 { break; }
        n += e.encode(&mut b, Eos::new(false)).unwrap() as u64;
    }
}
''')
bug("b11-error-stays", "C24", [("src/message.rs", "        if let Some(e) = self.last_error.take() {", "        if let Some(e) = self.last_error.clone() {")],
    "a broken message followed by a good one on the same decoder",
    "after one broken message every later message of the decoder is reported as broken with the old error",
    ALLOW + PRE + HDR + '''
fn main() {
    let bad = msg(0x0001, &[(1, &[0, 9, 0, 80, 127, 0, 0, 1], 0)]);
    let good = msg(0x0001, &[(1, &[0, 1, 0, 80, 127, 0, 0, 1], 0)]);
    let mut d = MessageDecoder::<rfc5389::Attribute>::new();
    assert!(d.decode_from_bytes(&bad).unwrap().is_err());
    assert!(d.decode_from_bytes(&good).unwrap().is_ok());
}
''')
bug("b12-broken-error-kind", "C25", [("src/message.rs", '''        let attributes = track!(self.attributes.finish_decoding())?;
        let mut message = Message {''', '''        let attributes = track!(self
            .attributes
            .finish_decoding()
            .map_err(|e| ErrorKind::InvalidInput.cause(e)))?;
        let mut message = Message {''')],
    "a message with an attribute that fails with an error other than invalid input, as one that is cut off by its length",
    "the report of a broken message carries another kind of error than the attribute failed with",
    ALLOW + PRE + HDR + '''
fn main() {
    let b = msg(0x0001, &[(0x000d, &[0, 0, 1], 0)]);
    let e = MessageDecoder::<rfc5766::Attribute>::new().decode_from_bytes(&b).unwrap().unwrap_err();
    assert_eq!(*e.error().kind(), bytecodec::ErrorKind::UnexpectedEos);
    assert_eq!(e.transaction_id(), TransactionId::new([7; 12]));
}
''')
bug("b13-last-of-type", "C26", [("src/message.rs", "        self.attributes().filter_map(|a| a.try_as_ref()).next()", "        self.attributes\n            .iter()\n            .rev()\n            .filter_map(|a| a.as_known())\n            .find_map(|a| a.try_as_ref())")],
    "a message with two attributes of the same type",
    "the typed lookup gives the last attribute of a type instead of the first",
    ALLOW + PRE + HDR + '''
fn main() {
    let mut m = ''' + NEW + ''';
    m.add_attribute(Realm::new("a".to_owned()).unwrap());
    m.add_attribute(Software::new("x".to_owned()).unwrap());
    m.add_attribute(Realm::new("b".to_owned()).unwrap());
    assert_eq!(m.get_attribute::<Realm>().unwrap().text(), "a");
}
''')
bug("b14-empty-unknown-dropped", "C07", [("src/message.rs", '''        let attributes = track!(self.attributes.finish_decoding())?;
        let mut message = Message {''', '''        let mut attributes = track!(self.attributes.finish_decoding())?;
        attributes.retain(|a| a.as_unknown().map_or(true, |raw| !raw.value().is_empty()));
        let mut message = Message {''')],
    "a received message with an unknown attribute that has no value bytes",
    "unknown attributes without value are dropped, so that the message encodes to other bytes and its signatures fail",
    ALLOW + PRE + HDR + '''
fn main() {
    let b = msg(0x0001, &[(0x7abc, b"", 0), (0x8022, b"abc", 0)]);
    let m = MessageDecoder::<rfc5389::Attribute>::new().decode_from_bytes(&b).unwrap().unwrap();
    assert_eq!(m.unknown_attributes().count(), 1);
    assert_eq!(MessageEncoder::new().encode_into_bytes(m).unwrap(), b);
}
''')
bug("b15-error-number-100", "C10", [("src/rfc5389/attributes.rs", "    track_assert!(number < 100, ErrorKind::InvalidInput);", "    track_assert!(number <= 100, ErrorKind::InvalidInput);")],
    "an ERROR-CODE with class 3 to 5 and number 100",
    "an error number of 100 is accepted and becomes an error of the next class",
    ALLOW + PRE + HDR + '''
fn main() {
    for n in 0..=255u8 {
        let b = msg(0x0111, &[(9, &[0, 0, 4, n, b'x'], 0)]);
        assert_eq!(MessageDecoder::<rfc5389::Attribute>::new().decode_from_bytes(&b).unwrap().is_ok(), n < 100);
    }
}
''')
bug("b16-name-in-chars", "C13", [("src/rfc5389/attributes.rs", "        track_assert!(name.len() < 513, ErrorKind::InvalidInput; name);", "        track_assert!(name.chars().count() < 513, ErrorKind::InvalidInput; name);")],
    "a user name with more than 512 bytes but fewer than 513 characters",
    "user names longer than 512 bytes are accepted when they contain characters of several bytes",
    ALLOW + PRE + HDR + '''
fn main() {
    assert!(Username::new("\\u{e4}".repeat(256)).is_ok());
    assert!(Username::new("\\u{e4}".repeat(257)).is_err());
}
''')
bug("b17-optional-hook-error", "C30", [("src/message.rs", "                decode_result?;", "                if attr.get_type().is_comprehension_required() {\n                    decode_result?;\n                }")],
    "a decode hook that fails for a comprehension-optional attribute",
    "errors of the decode hooks of optional attributes are ignored, among them wrong fingerprints",
    ALLOW + PRE + HDR + OWN + '''
fn main() {
    for t in [0x0010u16, 0x8010] {
        FAIL.with(|f| f.set(t));
        let b = msg(0x0001, &[(0x11, b"abcd", 0), (t, b"abc", 0)]);
        assert!(MessageDecoder::<Own>::new().decode_from_bytes(&b).unwrap().is_err());
    }
}
''')
bug("b18-reserve-announced", "C32", [("src/attribute.rs", "                track!(self.unknown_value.set_expected_bytes(u64::from(value_len)))?;", '''                track!(self.unknown_value.set_expected_bytes(u64::from(value_len)))?;
                self.unknown_value.inner_mut().expect_words(value_len);'''),
    ("src/attribute.rs", '''pub struct RawAttributeDecoder {
    attr_type: Option<AttributeType>,
    value: RemainingBytesDecoder,
}
impl RawAttributeDecoder {''', '''pub struct RawAttributeDecoder {
    attr_type: Option<AttributeType>,
    value: RemainingBytesDecoder,
    words: Vec<u64>,
}
impl RawAttributeDecoder {
    fn expect_words(&mut self, len: u16) {
        self.words = Vec::with_capacity(usize::from(len));
    }
''')],
    "an unknown attribute that announces a large value of which nothing has arrived",
    "eight times the announced length is reserved for each unknown attribute",
    ALLOW + PRE + HDR + '''
struct Counting;
static MAX: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        MAX.fetch_max(l.size(), std::sync::atomic::Ordering::SeqCst);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;
fn main() {
    let mut b = msg(0x0001, &[]);
    b[2] = 0xff;
    b.extend_from_slice(&[0x7a, 0xbc, 0xff, 0x00, 1, 2, 3]);
    let mut d = MessageDecoder::<rfc5389::Attribute>::new();
    d.decode(&b, Eos::new(false)).unwrap();
    assert!(MAX.load(std::sync::atomic::Ordering::SeqCst) <= 0x10000);
}
''')
bug("b19-key-cache", "C31", [("src/rfc5389/attributes.rs", '''        let key =
            md5::compute(format!("{}:{}:{}", username.name(), realm.text(), password).as_bytes());
        let expected = Self::generate_hmac_token(&key.0[..], &self.preceding_message_bytes);''', '''        thread_local! {
            static LAST: std::cell::RefCell<(String, [u8; 16])> = std::cell::RefCell::default();
        }
        let key = LAST.with(|last| {
            let mut last = last.borrow_mut();
            if last.0 != username.name() {
                let text = format!("{}:{}:{}", username.name(), realm.text(), password);
                *last = (username.name().to_owned(), md5::compute(text.as_bytes()).0);
            }
            last.1
        });
        let expected = Self::generate_hmac_token(&key[..], &self.preceding_message_bytes);''')],
    "two credential checks for the same user name with different passwords, one after the other",
    "the key of the last check is remembered, so that a second check with a wrong password succeeds",
    ALLOW + PRE + HDR + '''
fn main() {
    let m = ''' + NEW + ''';
    let (u, r) = (Username::new("u".to_owned()).unwrap(), Realm::new("r".to_owned()).unwrap());
    let mi = MessageIntegrity::new_long_term_credential(&m, &u, &r, "right").unwrap();
    assert!(mi.check_long_term_credential(&u, &r, "right").is_ok());
    assert!(mi.check_long_term_credential(&u, &r, "wrong").is_err());
}
''')
bug("b20-software-nul", "C33", [("src/rfc5389/attributes.rs", "impl_decode!(SoftwareDecoder, Software, Software::new);", '''impl_decode!(SoftwareDecoder, Software, |text: String| {
    // Some agents count the padding as part of the text
    Software::new(text.trim_end_matches('\\0').to_owned())
});''')],
    "a received SOFTWARE attribute whose text ends with a NUL",
    "the text is shortened, so that the signatures of the message are checked over other bytes than were received",
    ALLOW + PRE + HDR + '''
fn main() {
    let b = msg(0x0001, &[(0x8022, b"abcd\\0\\0\\0\\0", 0)]);
    let m = MessageDecoder::<rfc5389::Attribute>::new().decode_from_bytes(&b).unwrap().unwrap();
    assert_eq!(MessageEncoder::new().encode_into_bytes(m).unwrap(), b);
}
''')
bug("b21-channel-index", "C18", [("src/rfc5766/attributes.rs", "        track_assert!(n <= Self::MAX, ErrorKind::InvalidInput; n);", "        track_assert!(n - Self::MIN <= Self::MAX - Self::MIN, ErrorKind::InvalidInput; n);"),
    ("src/rfc5766/attributes.rs", "        track_assert!(n >= Self::MIN, ErrorKind::InvalidInput; n);\n", "")],
    "a channel number below 0x4000",
    "a channel number below the range makes the decoder panic (or, without overflow checks, is rejected)",
    ALLOW + PRE + HDR + '''
fn main() {
    let b = msg(0x0001, &[(0x000c, &[0x3f, 0xff, 0, 0], 0)]);
    assert!(MessageDecoder::<rfc5766::Attribute>::new().decode_from_bytes(&b).unwrap().is_err());
}
''')
bug("b22-lifetime-millis", "C19", [("src/rfc5766/attributes.rs", "        let lifetime_seconds = lifetime.as_secs();\n", "        let lifetime_seconds = (lifetime + Duration::from_millis(500)).as_secs();\n")],
    "a lifetime close to the largest duration",
    "building a lifetime panics for durations that cannot be rounded up",
    ALLOW + PRE + HDR + '''
fn main() {
    assert!(rfc5766::attributes::Lifetime::new(std::time::Duration::MAX).is_err());
}
''')
bug("b23-set-encoder-overwrites", "C36", [("src/macros.rs", "                $crate::macros::track_assert!(self.is_idle(), ::bytecodec::ErrorKind::EncoderFull; item);\n", "                // The item in progress (if any) is replaced\n")],
    "an encoder of an attribute set that is given an attribute while another one is partly written",
    "the rest of the attribute in progress is silently dropped instead of the new one being refused",
    ALLOW + PRE + '''
fn main() {
    let mut e = rfc5389::AttributeEncoder::default();
    e.start_encoding(Software::new("abcdef".to_owned()).unwrap().into()).unwrap();
    let mut b = [0; 2];
    assert_eq!(e.encode(&mut b, Eos::new(false)).unwrap(), 2);
    assert!(e.start_encoding(Nonce::new("x".to_owned()).unwrap().into()).is_err());
}
''')
bug("b24-unknown-clone-padding", "C37", [("src/attribute.rs", "#[derive(Debug, Clone)]\npub enum LosslessAttribute<T> {", "#[derive(Debug)]\npub enum LosslessAttribute<T> {"),
    ("src/attribute.rs", "impl<T: Attribute> LosslessAttribute<T> {\n", '''impl<T: Clone> Clone for LosslessAttribute<T> {
    fn clone(&self) -> Self {
        match self {
            LosslessAttribute::Known { inner, padding } => LosslessAttribute::Known {
                inner: inner.clone(),
                padding: padding.clone(),
            },
            // The padding is recomputed from the value when it is encoded
            LosslessAttribute::Unknown { inner, .. } => LosslessAttribute::Unknown {
                inner: inner.clone(),
                padding: None,
            },
        }
    }
}
impl<T: Attribute> LosslessAttribute<T> {
''')],
    "a decoded message with an unknown attribute that has non-zero padding, cloned",
    "the clone of the message encodes to other bytes than the message",
    ALLOW + PRE + HDR + '''
fn main() {
    let b = msg(0x0001, &[(0x7abc, b"hello", 0x20)]);
    let m = MessageDecoder::<rfc5389::Attribute>::new().decode_from_bytes(&b).unwrap().unwrap();
    let c = m.clone();
    assert_eq!(MessageEncoder::new().encode_into_bytes(m).unwrap(), b);
    assert_eq!(MessageEncoder::new().encode_into_bytes(c).unwrap(), b);
}
''')
bug("b25-error-code-eq", "C37", [("src/rfc5389/attributes.rs", "#[derive(Debug, Clone, PartialEq, Eq, Hash)]\npub struct ErrorCode {", "#[derive(Debug, Clone)]\npub struct ErrorCode {"),
    ("src/rfc5389/attributes.rs", "impl Attribute for ErrorCode {\n", '''impl PartialEq for ErrorCode {
    fn eq(&self, other: &Self) -> bool {
        // The reason phrase is for humans: letter case does not matter
        self.code == other.code
            && self
                .reason_phrase
                .eq_ignore_ascii_case(&other.reason_phrase)
    }
}
impl Eq for ErrorCode {}
impl std::hash::Hash for ErrorCode {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.code.hash(state);
        self.reason_phrase.to_ascii_lowercase().hash(state);
    }
}
impl Attribute for ErrorCode {
''')],
    "two error codes whose reason phrases differ in letter case only",
    "attributes with different content are equal",
    ALLOW + PRE + '''
fn main() {
    assert!(ErrorCode::new(400, "Bad".to_owned()).unwrap() != ErrorCode::new(400, "bad".to_owned()).unwrap());
}
''')
bug("b26-macro-needs-trackable", "C35", [("src/macros.rs", "                    $encoder::None => Ok(0),\n", "                    $encoder::None => trackable::track!(Ok::<_, ::bytecodec::Error>(0)),\n")],
    "a crate that defines an attribute set and does not depend on the crate trackable",
    "the macro expands to a path of a crate that its user may not have, so that sets defined there do not compile",
    "// without trackable\n" + ALLOW + PRE + '''
mod mine {
    use stun_codec::define_attribute_enums;
    use stun_codec::rfc5389::attributes::*;
    use stun_codec::rfc8016::attributes::*;
    define_attribute_enums!(Mine, MineDecoder, MineEncoder, [MobilityTicket, Software]);
}
fn main() {
    let mut m = Message::<mine::Mine>::new(MessageClass::Request, rfc5389::methods::BINDING, TransactionId::new([3; 12]));
    m.add_attribute(Software::new("foo".to_owned()).unwrap());
    assert_eq!(MessageEncoder::new().encode_into_bytes(m).unwrap().len(), 28);
}
''')
bug("b27-quoted-realm", "C15", [("src/rfc5389/attributes.rs", '''        let key =
            md5::compute(format!("{}:{}:{}", username.name(), realm.text(), password).as_bytes());
        let preceding_message_bytes''', '''        let key = Self::long_term_key(username, realm, password);
        let preceding_message_bytes'''), ("src/rfc5389/attributes.rs", '''        let key =
            md5::compute(format!("{}:{}:{}", username.name(), realm.text(), password).as_bytes());
        let expected''', '''        let key = Self::long_term_key(username, realm, password);
        let expected'''), ("src/rfc5389/attributes.rs", "    fn message_into_bytes<A: Attribute>(", '''    // The texts of the realm and the username may be quoted, the key is made without the quotes.
    fn long_term_key(username: &Username, realm: &Realm, password: &str) -> md5::Digest {
        fn unquote(s: &str) -> &str {
            s.strip_prefix('"').and_then(|s| s.strip_suffix('"')).unwrap_or(s)
        }
        md5::compute(format!("{}:{}:{}", unquote(username.name()), unquote(realm.text()), password).as_bytes())
    }

    fn message_into_bytes<A: Attribute>(''')],
    "a user name that starts and ends with a double quote",
    "the quotes of the user name are left out of the long-term key, which other implementations keep",
    ALLOW + PRE + '''
fn main() {
    let m = Message::<rfc5389::Attribute>::new(MessageClass::Request, rfc5389::methods::BINDING, TransactionId::new([3; 12]));
    let r = Realm::new("r".to_owned()).unwrap();
    let a = MessageIntegrity::new_long_term_credential(&m, &Username::new("\\"u\\"".to_owned()).unwrap(), &r, "p").unwrap();
    let b = MessageIntegrity::new_long_term_credential(&m, &Username::new("u".to_owned()).unwrap(), &r, "p").unwrap();
    assert!(a.hmac_sha1() != b.hmac_sha1());
}
''')
bug("b28-attribute-limit", "C26", [("src/message.rs", "        self.attributes().filter_map(|a| a.try_as_ref()).next()", "        self.attributes().take(16).filter_map(|a| a.try_as_ref()).next()")],
    "a message with more than sixteen attributes",
    "an attribute behind the sixteenth is not found",
    ALLOW + PRE + '''
fn main() {
    let mut m = Message::<rfc5389::Attribute>::new(MessageClass::Request, rfc5389::methods::BINDING, TransactionId::new([3; 12]));
    for _ in 0..16 { m.add_attribute(Software::new("foo".to_owned()).unwrap()); }
    m.add_attribute(Nonce::new("foo".to_owned()).unwrap());
    assert!(m.get_attribute::<Nonce>().is_some());
}
''')
bug("b29-incomplete-bad-request", "C28", [("src/rfc5389/attributes.rs", "        match *f.kind() {\n            ErrorKind::InvalidInput => errors::BadRequest.into(),", "        match *f.kind() {\n            ErrorKind::InvalidInput | ErrorKind::IncompleteDecoding => errors::BadRequest.into(),")],
    "an error of kind IncompleteDecoding, converted to an error code",
    "a fault of the server is answered with 400 (Bad Request)",
    ALLOW + PRE + '''
fn main() {
    let e: bytecodec::Error = trackable::error::ErrorKindExt::error(bytecodec::ErrorKind::IncompleteDecoding).into();
    assert_eq!(ErrorCode::from(e).code(), 500);
}
''')
bug("b30-mapped-v4", "C11", [("src/net.rs", "        IpAddr::V6(ip) => {\n            let mut octets = ip.octets();\n", "        IpAddr::V6(ip) if ip.segments()[..6] == [0, 0, 0, 0, 0, 0xFFFF] => {\n            // An IPv4-mapped address: only the IPv4 part is obfuscated\n            let mut octets = ip.octets();\n            for (i, b) in octets.iter_mut().skip(12).enumerate() {\n                *b ^= (MAGIC_COOKIE >> (24 - i * 8)) as u8;\n            }\n            SocketAddr::new(IpAddr::V6(From::from(octets)), xor_port)\n        }\n        IpAddr::V6(ip) => {\n            let mut octets = ip.octets();\n")],
    "an IPv4-mapped IPv6 address",
    "IPv4-mapped addresses are xored with the cookie only and not with the transaction id",
    ALLOW + PRE + '''
fn main() {
    let a: std::net::SocketAddr = "[::ffff:1.2.3.4]:80".parse().unwrap();
    let x = net::socket_addr_xor(a, TransactionId::new([3; 12]));
    assert_eq!(x.ip().to_string(), "2112:a442:303:303:303:fcfc:201:7");
    assert_eq!(net::socket_addr_xor(x, TransactionId::new([3; 12])), a);
}
''')
