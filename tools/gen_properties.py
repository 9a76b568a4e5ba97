#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [])))
M='src/message.rs'; A='src/attribute.rs'; MA='src/macros.rs'; N='src/net.rs'
R89='src/rfc5389/attributes.rs'; R66='src/rfc5766/attributes.rs'; R45='src/rfc5245/attributes.rs'
R80='src/rfc5780/attributes.rs'; R16='src/rfc8016/attributes.rs'; R56='src/rfc8656/attributes.rs'
ATTRS=[R89,R66,R45,R80,R16,R56]
p('C01','Message type codes follow RFC 5389 in both directions',
  'Every class and every method below 0x1000 is written as the RFC 5389 interleaved 14-bit message type, and reading a message type gives back exactly that class and method. A message type whose two most significant bits are not zero is rejected, and every other 16-bit value is accepted.',
  ['inputs'],'all 4 classes x 4096 methods, all 65536 wire values',
  'The tests use BINDING only (method 1), so the placement of the upper eight method bits and the rejection of the top bits are never sampled.',
  [M,'src/method.rs'],[('message type bit layout','Type::as_u16, Type::from_u16 in src/message.rs'),('class numbering','MessageClass')])
p('C02','Message header layout and magic cookie',
  'An encoded message starts with the 2-byte type, the 2-byte length, the magic cookie 0x2112A442 and the 12-byte transaction id, big-endian and in that order. Decoding takes class, method, length and transaction id from exactly those positions, and a header whose cookie differs in any bit is rejected.',
  ['inputs'],'all header contents, all classes, methods and transaction ids',
  'Tests decode four fixed vectors with a right cookie; no test feeds a wrong cookie or checks every header bit.',
  [M,'src/constants.rs','src/transaction_id.rs'],[('header decoder','MessageHeaderDecoder'),('header fields of the encoder','MessageEncoder::start_encoding / encode')])
p('C03','Length fields state the real sizes and are never truncated',
  'The length field of an encoded attribute is the number of bytes of its value without padding, and that of a message is the number of bytes that follow the header, padding included. A value or an attribute list whose size does not fit the 16-bit field makes encoding (or building a signature over it) fail instead of writing a wrapped length.',
  ['inputs'],'all messages, including values and attribute lists around and above 65535 bytes',
  'Tests encode small messages only, so a wrapped 16-bit length cannot show.',
  [M,A,R89],[('message length check','MessageEncoder::start_encoding'),('attribute length check','LosslessAttributeEncoder::start_encoding'),('adjusted lengths','Fingerprint::new, MessageIntegrity::message_into_bytes')])
p('C04','Attributes are padded to 32-bit boundaries and padding survives',
  'Every encoded attribute value is followed by exactly the 0 to 3 bytes that bring it to a multiple of four, zero for attributes built by the user. Decoding consumes exactly that many bytes after each value whatever they contain, and encoding a decoded attribute writes the received padding bytes back.',
  ['inputs'],'all value lengths 0..65535 and all padding contents',
  'The sample vectors cover a few lengths and padding bytes only.',
  [A],[('padding length','Padding::new'),('padding decode/encode','LosslessAttributeDecoder, LosslessAttributeEncoder')])
p('C05','Attribute types carry their registered code points',
  'Each attribute type reports the code point IANA/its RFC assigns to it, its published constant has that value, and its decoder accepts that code point and no other. No two attributes share a code point.',
  ['inputs'],'all attribute types of the six RFC modules x all 65536 codes',
  'Most attribute types are never touched by a test; those that are get one code point each.',
  ATTRS,[('code points','CODEPOINT constants, Attribute::get_type'),('tag check','try_start_decoding')])
p('C06','An attribute set dispatches every attribute to its own codec',
  'In every predefined attribute set (RFC 5245, 5389, 5766, 5780), the type, the encode and decode hooks, the decoder and the encoder used for a member are those of that very member, converting a member into the set and viewing it back gives the same value, and a view as any other member gives nothing. A code of a member selects that member, and a code of no member is declined rather than guessed.',
  ['inputs','configurations'],'all members of all sets x all operations',
  'Tests exercise one set with about half of its members, one operation each.',
  [MA,'src/rfc5389/mod.rs','src/rfc5766/mod.rs','src/rfc5245/mod.rs','src/rfc5780/mod.rs'],[('define_attribute_enums!',MA)])
p('C07','Unrecognised attributes are kept verbatim',
  'An attribute whose code is not a member of the chosen set is delivered as a raw attribute with the received type and exactly the received value bytes, at its place in the sequence, and encoding it writes the same type and bytes back. Recognised attributes are never delivered as raw ones and no attribute is dropped.',
  ['inputs'],'all unrecognised type codes, all values',
  'No stable test decodes an unknown attribute.',
  [A,M],[('raw attributes','RawAttribute, RawAttributeDecoder, RawAttributeEncoder'),('lossless attribute','LosslessAttribute, LosslessAttributeDecoder')])
p('C08','Attribute values are written in the layout of their RFC',
  'For every attribute type and every value it can hold, the encoded value bytes are those the defining RFC prescribes: field order, width, bit positions and zeroed reserved bits.',
  ['inputs'],'all values of all attribute types',
  'Tests cover the attributes of RFC 5769 with one value each; TURN, ICE, NAT-discovery and mobility attributes are not encoded by any test except the two address-family ones.',
  ATTRS+[N],[('value encoders','the *Encoder types'),('address encoder','SocketAddrEncoder')])
p('C09','Attribute values are read back from the bits that define them',
  'For every attribute type, decoding a well-formed value yields the field values the defining RFC assigns to those bits, ignoring reserved bits, and decoding what was encoded gives back the same value.',
  ['inputs'],'all well-formed value bytes of all attribute types',
  'Tests decode one sample for about ten attribute types and none of the other twenty.',
  ATTRS+[N],[('value decoders','the *Decoder types'),('address decoder','SocketAddrDecoder')])
p('C10','Malformed attribute values are rejected',
  'A value with an unknown address family, an error class outside 3..5 or number above 99, a channel number outside 0x4000..0x4FFF, text longer than its limit, text that is not UTF-8, or a length other than the one its format has, makes the message broken. It never yields an attribute.',
  ['inputs'],'all value bytes and all declared lengths',
  'One test feeds one malformed message; the boundaries of each check are not sampled.',
  ATTRS+[N,A],[('validation in decoders','finish_decoding of the attribute decoders'),('length agreement','Length combinator use in LosslessAttributeDecoder')])
p('C11','Address obfuscation is the RFC XOR and its own inverse',
  'Obfuscating an address XORs the port with the upper half of the magic cookie, an IPv4 address with the cookie and an IPv6 address with the cookie followed by the transaction id, and keeps the family. Applying it twice with the same transaction id gives back the address.',
  ['inputs'],'all IPv4 and IPv6 addresses, ports and transaction ids',
  'The test compares one IPv4 and one IPv6 sample.',
  [N],[('XOR','socket_addr_xor')])
p('C12','Exactly the XOR attributes are obfuscated, once each way',
  'XOR-MAPPED-ADDRESS (both code points), XOR-PEER-ADDRESS and XOR-RELAYED-ADDRESS are obfuscated with the transaction id of their message once when encoded and once when decoded. No other attribute is changed by being put into or taken out of a message, apart from signature attributes recording what they cover.',
  ['inputs'],'all attribute types, all values, all transaction ids',
  'Only XOR-MAPPED-ADDRESS is tested, with two samples.',
  ATTRS,[('hooks','Attribute::before_encode, Attribute::after_decode')])
p('C13','Attribute constructors accept exactly the permitted values',
  'Building an attribute or method from a value outside its range (error code 300..599, channel number 0x4000..0x4FFF, method below 0x1000, user name up to 512 bytes, realm, nonce and software up to 127 characters, lifetime up to 2^32-1 seconds, data and mobility ticket up to 65535 bytes) fails, and building it from a value inside succeeds. Accessors of a built attribute return what it was built from, lifetimes being cut to whole seconds.',
  ['inputs'],'all constructor arguments',
  'Tests construct a handful of valid values and no value at or beyond a limit.',
  ATTRS+['src/method.rs'],[('constructors','the new functions of attribute types and Method')])
p('C14','Fingerprints cover exactly the preceding message bytes',
  'The fingerprint of a message is the CRC-32 of its encoding up to that attribute, with the header length counting the fingerprint attribute, XORed with 0x5354554E. A decoded message whose fingerprint attribute does not carry that value is reported as broken, and one that does is not rejected on that account.',
  ['inputs'],'all messages and all fingerprint values',
  'Tests check four right fingerprints and no wrong one.',
  [R89],[('fingerprint','Fingerprint::new, Fingerprint::after_decode')])
p('C15','Message integrity covers exactly the preceding message bytes',
  'The HMAC-SHA1 of a message integrity attribute, whether made or checked, is computed over the encoding of the message up to that attribute with the header length counting the 24 bytes of the attribute. A decoded attribute keeps the received 20-byte code and remembers those bytes of its own message.',
  ['inputs'],'all messages, keys and positions of the attribute',
  'Tests check three fixed vectors.',
  [R89],[('covered bytes','MessageIntegrity::message_into_bytes, after_decode, new_*')])
p('C16','Credential checks accept only the right key',
  'A short-term key is the password bytes and a long-term key is the MD5 of "username:realm:password". A credential check succeeds exactly when all 20 bytes of the code equal the HMAC-SHA1 under that key, otherwise it returns error code 401.',
  ['inputs'],'all credentials and all received codes',
  'Tests check right credentials for three vectors; no test checks a wrong one.',
  [R89],[('checks','check_short_term_credential, check_long_term_credential'),('keys','generate_hmac_token')])
p('C17','Attribute hooks see exactly the attributes before them',
  'Encoding and decoding a message call the hook of every attribute exactly once, first to last, each with a message that has the right class, method and transaction id and contains exactly the attributes before it. A failing hook stops the operation with that error.',
  ['inputs','histories'],'all attribute lists of any length, all hook outcomes',
  'Tests have at most six attributes and only successful hooks.',
  [M,A],[('hook loops','MessageEncoder::start_encoding, MessageDecoder::finish_decoding'),('dispatch','LosslessAttribute::before_encode, after_decode')])
p('C18','Decoding arbitrary bytes never panics',
  'No byte sequence, however split or truncated, makes the decoders panic: no arithmetic overflow, out-of-range index, failed unwrap or unreachable state. The same holds for verifying the signatures of a decoded message.',
  ['inputs','histories'],'all byte sequences and all ways to split them',
  'Tests feed well-formed messages and one malformed one.',
  [M,A,N]+ATTRS,[('decoders','every Decode implementation and what it calls')])
p('C19','Building and encoding messages never panics',
  'Building messages and attributes through the public API from any arguments, and encoding them into buffers of any size, ends in success or an error value and never in a panic. The same holds for computing the fingerprint or message integrity of a message.',
  ['inputs','histories'],'all constructible messages',
  'Tests encode a few small messages.',
  [M,A,N]+ATTRS,[('encoders','every Encode implementation and what it calls'),('constructors','new of the attribute types')])
p('C20','The attribute list is accessed in bounds and always restored',
  'While hooks run, the temporarily shortened attribute list is never indexed outside the original list, never longer than it, and is restored to its full length before anything else can use or drop it, on success and on failure. So a message never loses or duplicates an attribute and no memory is read out of bounds.',
  ['inputs','histories'],'all list lengths and all hook outcomes',
  'A leak or stale length after a failing hook is invisible to tests that only run successful hooks.',
  [M],[('unsafe blocks','get_unchecked_mut and set_len in src/message.rs')])
p('C21','Decoding does not depend on how the bytes are split',
  'Feeding a message, an attribute or an address to its decoder in any sequence of chunks gives the same result as feeding it at once: every byte goes to the same field, none is skipped or read twice, and the number of bytes reported as consumed is right. A stream that ends early is reported as an error.',
  ['inputs','histories'],'all byte sequences x all ways to split them',
  'Tests decode from one contiguous buffer only.',
  [M,A,N]+ATTRS,[('staged decoding','the decode methods of the codec structs')])
p('C22','Encoding does not depend on the sizes of output buffers',
  'Encoding into any sequence of output buffers yields the same bytes in the same order as encoding into one, with the number of bytes reported as written being right.',
  ['inputs','histories'],'all messages x all buffer size sequences',
  'Tests encode into one growing buffer only.',
  [M,A,N]+ATTRS,[('staged encoding','the encode methods of the codec structs')])
p('C23','Codecs report remaining sizes and completion truthfully',
  'An encoder announces exactly the number of bytes it still has to write, and after every call it is idle exactly when that is zero. The message decoder is idle exactly when it has a complete message; within the header it announces what the header still needs, after it exactly what the message still needs. No decoder announces more bytes than its item needs, or fewer than the bytes read so far prove it to need, or is idle before its item is complete.',
  ['histories'],'all codec states',
  'Tests use helpers that hide size announcements and idle states.',
  [M,A,N]+ATTRS,[('size accounting','requiring_bytes, exact_requiring_bytes, is_idle')])
p('C24','A decoder can be reused after every message',
  'After a message has been decoded, found broken, or rejected because of its type or cookie, the same decoder decodes the next message exactly as a new decoder would. Nothing of an earlier message shows up in a later one.',
  ['histories'],'all sequences of valid, broken and rejected messages',
  'Every test uses a new decoder per message.',
  [M,A,N]+ATTRS,[('state reset','finish_decoding implementations')])
p('C25','A broken message is reported with its identity and within its bounds',
  'When the header is valid but an attribute or signature is not, decoding completes with a broken-message report that carries the class, method and transaction id of that header and the original error; turned into a codec error it is one of invalid input. Exactly the bytes counted by the length field are consumed, so the message that follows is unaffected.',
  ['inputs','histories'],'all messages with a valid header',
  'One test checks one broken message without looking at what follows it.',
  [M],[('error capture','AttributesDecoder, MessageDecoder::finish_decoding, BrokenMessage')])
p('C26','Messages hold and expose attributes in order',
  'A new message has no attributes and keeps the class, method and transaction id it was made with; adding an attribute appends it. Listing yields every recognised attribute, in order and without raw ones, the list of unknown ones yields every raw one, and a typed lookup yields the first attribute of that type or nothing.',
  ['inputs','histories'],'all attribute sequences',
  'Tests look up attributes that occur once and compare small lists.',
  [M,A],[('queries','Message::get_attribute, attributes, unknown_attributes, add_attribute')])
p('C27','Comprehension-required range is 0x0000-0x7FFF',
  'An attribute type is classified as comprehension-required exactly when its code is below 0x8000, otherwise as comprehension-optional. An attribute type keeps the 16-bit code it was made from.',
  ['inputs'],'all 65536 codes','No test touches the classification.',
  [A],[('classification','AttributeType::is_comprehension_required, is_comprehension_optional')])
p('C28','Standard errors map to their codes and phrases',
  'Each predefined error converts into an error-code attribute with the code and default reason phrase of its RFC. A decode error converts into 400 for invalid input and into 500 for anything else.',
  ['inputs'],'all predefined errors, all error kinds','No test converts an error.',
  ['src/rfc5389/errors.rs','src/rfc5766/errors.rs','src/rfc5245/errors.rs','src/rfc8016/errors.rs','src/rfc8656/errors.rs',R89],[('conversions','From<...> for ErrorCode')])
p('C29','Methods and other identifiers have their registered numbers and names',
  'Each predefined method has the number IANA assigns to it, converting a byte or a valid code to a method and back keeps the number, and a method is displayed under its own name, unknown ones with their number. Message classes and address families are displayed under their own names, channel numbers as their decimal number.',
  ['inputs'],'all predefined methods, all method codes','Tests use BINDING only and display nothing.',
  ['src/method.rs','src/rfc5389/methods.rs','src/rfc5766/methods.rs',M],[('method constants','BINDING, ALLOCATE, ...'),('names','Display for Method, MessageClass, ChannelNumber, AddressFamily')])
p('C30','No codec error is swallowed',
  'Whenever a nested encoder, decoder, hook or validation reports an error, the operation that invoked it reports an error too; the only place that turns an error into something else is the broken-message report.',
  ['inputs','fault_sequences'],'every fallible step of every encode and decode operation',
  'Tests provoke one of these errors; the others are never taken.',
  [M,A,MA,N]+ATTRS,[('propagation','track! and ? on every nested call')])
p('C31','Codecs are deterministic and keep no hidden state',
  'The result of any operation depends only on its arguments and the codec it is called on: there is no global mutable state, clock, randomness, environment, file, network or thread use. Codecs and messages can be sent to and shared between threads.',
  ['histories','schedules'],'all call histories and interleavings of independent codecs',
  'Hidden state shows only in particular histories, which tests do not enumerate.',
  ['src/lib.rs'],[('absence of effects','the whole call graph of the crate')])
p('C32','Announced lengths do not drive allocation',
  'The memory a decoder reserves is proportional to the bytes actually received, apart from at most one attribute value of the largest size (64 KiB): lengths and counts from the wire are not multiplied by the size of an item, do not add up over attributes, and are not reserved for each attribute in turn, so a short input that announces a large length cannot make a decoder reserve more than that.',
  ['inputs'],'all inputs','Tests never announce more than they send.',
  [M,A,N]+ATTRS,[('allocation sites','calls that reserve memory reachable from decoders')])
p('C33','Re-encoding a decoded attribute gives the received bytes',
  'Encoding a successfully decoded attribute reproduces the received value bytes, so that signatures, which are checked over the re-encoded message, are checked over what was received.',
  ['inputs'],'all value bytes of all attribute types',
  'Sample vectors have zero reserved bits, for which the question does not arise.',
  ATTRS+[N],[('decode/encode pairs','the decoder and encoder of each attribute')])
p('C34','Credential checks take time independent of the received code',
  'The time a credential check takes does not depend on how many leading bytes of the received code are right.',
  ['inputs'],'all codes','Timing is not observed by tests.',
  [R89],[('comparison','check_short_term_credential, check_long_term_credential')])
p('C35','Attribute sets defined by users behave like the predefined ones',
  'A set that a user defines with the public macro over attribute types of this crate, from any of the RFCs, in any order and number, compiles in a crate of its own, works with messages, encoders and decoders, can be sent between threads, and gives messages that encode, decode, sign, verify and copy as the same attributes do in the predefined sets. That includes the attributes which no predefined set contains (mobility ticket, requested and additional address family).',
  ['inputs','programs'],'all values, sets over the attribute types of the crate','Tests define no set, and the documentation example only compiles one.',
  [MA]+ATTRS,[('define_attribute_enums!',MA),('combined set','src/verif.rs, behind cfg(stun_codec_verif)')])
p('C36','An encoder can be reused after every item',
  'After an item has been completely written, whatever the buffers, or a message has been refused because it does not fit its length fields, the same encoder accepts the next item and writes it exactly as a new encoder would, announcing the same sizes. While bytes of an item are left to write, starting another one is refused with an error, and for messages leaves the one being written unaffected.',
  ['inputs','histories'],'all pairs of items, all buffer sizes, all points of interruption',
  'Tests use every encoder for one item.',
  [M,A,N,MA]+ATTRS,[('MessageEncoder::start_encoding',M),('MessageEncoder::encode',M),('LosslessAttributeEncoder',A),('attribute set encoders',MA)])
p('C37','Copies and comparisons reflect exactly the content',
  'A clone of an attribute, a message or a report of a broken message has the same content, and encoding it gives the same bytes (padding and unrecognised attributes of a decoded message included); cloning leaves the original as it was. Two attributes, transaction ids, methods, classes or attribute types are equal exactly when their type and content are, and identifiers and channel numbers are ordered by their numeric value (transaction ids byte by byte).',
  ['inputs'],'all values, all pairs of values, all decoded messages',
  'Tests compare a few equal values and never unequal ones.',
  [M,A,MA,'src/transaction_id.rs','src/method.rs']+ATTRS,[('comparison','PartialEq, Ord of public types'),('copies','Clone of public types, LosslessAttribute and Padding')])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + '\n')
    print(len(P))
