"""Small defects, each with the property it breaks (mutant_tool.py). Unlike the planted bugs these have no demonstration."""
MUTS = []
def mut(id, prop, *edits):
    MUTS.append((id, prop, edits))
M, A, N, MAC = "src/message.rs", "src/attribute.rs", "src/net.rs", "src/macros.rs"
R5389, R5766, R5245, R5780, R8016, R8656 = ("src/rfc%s/attributes.rs" % x for x in ("5389", "5766", "5245", "5780", "8016", "8656"))

mut("m01", "C01", (M, "            value >> 14 == 0,\n", "            value >> 15 == 0,\n"))
mut("m02", "C02", (M, "        track_assert_eq!(\n            magic_cookie,\n            MAGIC_COOKIE,", "        track_assert_eq!(\n            magic_cookie & 0xFFFF_FF00,\n            MAGIC_COOKIE & 0xFFFF_FF00,"))
mut("m07", "C07", (M, "self.attributes.iter().filter_map(|a| a.as_unknown())", "self.attributes\n            .iter()\n            .filter_map(|a| a.as_unknown())\n            .filter(|a| a.attr_type().is_comprehension_required())"),
    (A, "    /// Returns a reference to the value bytes of the attribute.\n", "    pub(crate) fn attr_type(&self) -> AttributeType {\n        self.attr_type\n    }\n\n    /// Returns a reference to the value bytes of the attribute.\n"))
mut("m09", "C09", (R5389, "    let class = (value >> 8) & 0b111;\n", "    let class = (value >> 8) & 0b1111;\n"))
mut("m10", "C10", (N, "                FAMILY_IPV4 => self.ip.set", "                0 | FAMILY_IPV4 => self.ip.set"))
mut("m11", "C11", (N, "    match addr.ip() {\n", "    let ip = match addr.ip() {\n        IpAddr::V6(ip) => ip.to_ipv4_mapped().map_or(IpAddr::V6(ip), IpAddr::V4),\n        ip => ip,\n    };\n    match ip {\n"))
mut("m12", "C12", (R5766, """    fn after_decode<A: Attribute>(&mut self, message: &Message<A>) -> Result<()> {
        self.0 = socket_addr_xor(self.0, message.transaction_id());
        Ok(())
    }
}

/// [`XorRelayAddress`] decoder.""", """    fn after_decode<A: Attribute>(&mut self, message: &Message<A>) -> Result<()> {
        if message.class() != MessageClass::Request {
            self.0 = socket_addr_xor(self.0, message.transaction_id());
        }
        Ok(())
    }
}

/// [`XorRelayAddress`] decoder."""), (R5766, "use crate::message::Message;\n", "use crate::message::{Message, MessageClass};\n"))
mut("m13", "C13", (R5389, "track_assert!(name.len() < 513, ErrorKind::InvalidInput; name);", "track_assert!(name.trim().len() < 513, ErrorKind::InvalidInput; name);"))
mut("m13b", "C13", (R5389, "track_assert!((300..600).contains(&code), ErrorKind::InvalidInput; code, reason_phrase);", "track_assert!((300..=600).contains(&code), ErrorKind::InvalidInput; code, reason_phrase);"))
mut("m14", "C14", (R5389, "        let actual = track!(Self::new(message))?;\n", "        if message.attributes().count() == 0 && message.unknown_attributes().count() == 0 {\n            return Ok(());\n        }\n        let actual = track!(Self::new(message))?;\n"))
mut("m15", "C15", (R5389, "            Mac::new_from_slice(key).expect(", "            Mac::new_from_slice(&key[..key.len().min(64)]).expect("))
mut("m16", "C16", (R5389, """        let expected = Self::generate_hmac_token(key, &self.preceding_message_bytes);
        if self.hmac_sha1 == expected {""", """        let expected = Self::generate_hmac_token(key, &self.preceding_message_bytes);
        if self.hmac_sha1 == expected || (password.is_empty() && self.hmac_sha1 == [0; 20]) {"""))
mut("m16b", "C15", (R5389, """        let key =
            md5::compute(format!("{}:{}:{}", username.name(), realm.text(), password).as_bytes());
        let preceding""", """        let key = md5::compute(
            format!("{}:{}:{}", username.name(), realm.text().trim_matches('"'), password).as_bytes(),
        );
        let preceding"""))
mut("m17", "C18", (R5389, "impl_decode!(SoftwareDecoder, Software, Software::new);", "impl_decode!(SoftwareDecoder, Software, |text: String| {\n    track_assert_ne!(text.as_bytes()[0], 0, ErrorKind::InvalidInput);\n    Software::new(text)\n});"))
mut("m18", "C19", (A, "        track!(self.value_len.start_encoding(value_len as u16))?;\n        track!(self.padding", "        debug_assert!(value_len as u16 + 4 > 0);\n        track!(self.value_len.start_encoding(value_len as u16))?;\n        track!(self.padding"))
mut("m23", "C23", (N, "            .add_for_decoding(self.port.requiring_bytes())\n", ""))
mut("m24", "C24", (M, """        let magic_cookie = track!(self.magic_cookie.finish_decoding())?;
        let transaction_id = TransactionId::new(track!(self.transaction_id.finish_decoding())?);
        let message_type = track!(Type::from_u16(message_type))?;
""", """        let message_type = track!(Type::from_u16(message_type))?;
        let magic_cookie = track!(self.magic_cookie.finish_decoding())?;
        let transaction_id = TransactionId::new(track!(self.transaction_id.finish_decoding())?);
"""))
mut("m26", "C26", (M, "        self.attributes\n            .push(LosslessAttribute::new(attribute.into()));", """        let attribute = LosslessAttribute::new(attribute.into());
        match self.attributes.last() {
            Some(a) if a.get_type().as_u16() == 0x8028 => {
                let i = self.attributes.len() - 1;
                self.attributes.insert(i, attribute);
            }
            _ => self.attributes.push(attribute),
        }"""))
mut("m27", "C27", (A, "self.0 < 0x8000", "self.0 < 0x7FFF"))
mut("m28", "C28", (R5389, "            ErrorKind::InvalidInput => errors::BadRequest.into(),", "            ErrorKind::InvalidInput | ErrorKind::UnexpectedEos => errors::BadRequest.into(),"))
mut("m30", "C30", (N, "        track!(self.port.start_encoding(item.port()))?;\n", "        let _ = self.port.start_encoding(item.port());\n"))
mut("m31", "C31", (R5389, "    fn message_into_bytes<A: Attribute>(message: Message<A>) -> Result<Vec<u8>> {\n", "    fn message_into_bytes<A: Attribute>(message: Message<A>) -> Result<Vec<u8>> {\n        static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n"))
mut("m32", "C32", (M, "            track!(self.attributes.set_expected_bytes(u64::from(message_len)))?;\n", "            track!(self.attributes.set_expected_bytes(u64::from(message_len)))?;\n            self.scratch = Vec::with_capacity(usize::from(message_len));\n"),
    (M, "    attributes: Length<AttributesDecoder<A>>,\n}", "    attributes: Length<AttributesDecoder<A>>,\n    scratch: Vec<u8>,\n}"),
    (M, "            header: Default::default(),\n            attributes: Default::default(),\n", "            header: Default::default(),\n            attributes: Default::default(),\n            scratch: Vec::new(),\n"))
mut("m33", "C33", (R5766, "impl_decode!(LifetimeDecoder, Lifetime, |item| Ok(Lifetime(\n    Duration::from_secs(u64::from(item))\n)));", "impl_decode!(LifetimeDecoder, Lifetime, |item: u32| Ok(Lifetime(\n    Duration::from_secs(u64::from(item.min(0x7FFF_FFFF)))\n)));"))
mut("m20", "C20", (M, "                let decode_result = track!(attr.after_decode(&message));\n                message.attributes.set_len(attributes_len);\n                decode_result?;", "                let decode_result = track!(attr.after_decode(&message));\n                message.attributes.set_len(i + 1);\n                decode_result?;\n                message.attributes.set_len(attributes_len);"))
mut("m17b", "C17", (M, "                item.attributes.set_len(i);\n", "                item.attributes.set_len(i + 1);\n"))
mut("m22", "C22", (N, "        bytecodec_try_encode!(self.port, offset, buf, eos);\n        bytecodec_try_encode!(self.ip, offset, buf, eos);\n        Ok(offset)\n    }\n\n    fn start_encoding", "        if buf.len() - offset < 2 {\n            return Ok(offset);\n        }\n        bytecodec_try_encode!(self.port, offset, buf, eos);\n        bytecodec_try_encode!(self.ip, offset, buf, eos);\n        Ok(offset)\n    }\n\n    fn start_encoding"))
mut("m08", "C08", (R5389, "    let number = u32::from(item.code % 100);\n    let value", "    let number = u32::from(item.code % 100) & 0x3F;\n    let value"))
mut("m08b", "C08", (R5389, "        .map(|ty| ty.as_u16())\n        .collect::<Vec<_>>()", "        .map(|ty| ty.as_u16())\n        .take(64)\n        .collect::<Vec<_>>()"))
mut("m08c", "C08", (R5389, "        .map(|ty| ty.as_u16())\n        .collect::<Vec<_>>()", "        .map(|ty| ty.as_u16())\n        .filter(|ty| *ty < 0x8000)\n        .collect::<Vec<_>>()"))
mut("m08d", "C08", (R5389, "        .map(|ty| ty.as_u16())\n        .collect::<Vec<_>>()", "        .map(|ty| ty.as_u16())\n        .collect::<std::collections::BTreeSet<_>>()\n        .into_iter()\n        .collect::<Vec<_>>()"))
mut("m09b", "C09", (R5766, "    ChannelNumber::new((item >> 16) as u16)\n", "    ChannelNumber::new((item >> 16) as u16 | (item & 1) as u16)\n"))
mut("m09c", "C09", (R5389, "        unknowns: vs.into_iter().map(AttributeType::new).collect()\n", "        unknowns: vs.into_iter().filter(|t| *t != 0).map(AttributeType::new).collect()\n"))

# Second round
mut("n01", "C02", (M, "        track!(self.check_magic_cookie(magic_cookie); message_type, message_len, transaction_id)?;\n", "        if message_len > 0 || message_type.class != MessageClass::Indication {\n            track!(self.check_magic_cookie(magic_cookie); message_type, message_len, transaction_id)?;\n        }\n"))
mut("n02", "C05", (R8016, "                Ok(attr_type.as_u16() == $item::CODEPOINT)", "                Ok(attr_type.as_u16() | 0x8000 == $item::CODEPOINT)"))
mut("n03", "C05", (R5766, "    pub const CODEPOINT: u16 = 0x001A;", "    pub const CODEPOINT: u16 = 0x001B;"))
mut("n04", "C03", (M, "        if message_len >= 0x10000 {\n", "        if message_len >= 0x20000 {\n"), (M, "            message_len < 0x10000,\n", "            message_len < 0x10001,\n"))
mut("n05", "C10", (R5766, "impl_decode!(RequestedTransportDecoder, RequestedTransport, |item| Ok(\n    RequestedTransport((item >> 24) as u8)\n));", "impl_decode!(RequestedTransportDecoder, RequestedTransport, |item: u32| {\n    track_assert!(item & 0xFF_FFFF == 0 || item >> 24 == 17, ErrorKind::InvalidInput);\n    Ok(RequestedTransport((item >> 24) as u8))\n});"))
mut("n06", "C25", (M, "        ErrorKind::InvalidInput.cause(format!(\"{:?}\", f)).into()", "        f.error"))
mut("n07", "C27", (A, "        !self.is_comprehension_required()", "        self.0 > 0x8000"))
mut("n08", "C37", ("src/transaction_id.rs", "#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]", "#[derive(Clone, Copy, PartialEq, Eq, Hash)]"),
    ("src/transaction_id.rs", "impl TransactionId {\n", "impl PartialOrd for TransactionId {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\nimpl Ord for TransactionId {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        self.0[..8].cmp(&other.0[..8])\n    }\n}\nimpl TransactionId {\n"))
mut("n09", "C37", (R5766, "#[derive(Debug, Clone, PartialEq, Eq, Hash)]\npub struct Lifetime(Duration);", "#[derive(Debug, Clone, Eq, Hash)]\npub struct Lifetime(Duration);\nimpl PartialEq for Lifetime {\n    fn eq(&self, other: &Self) -> bool {\n        self.0.as_secs() as u16 == other.0.as_secs() as u16\n    }\n}"))
mut("n10", "C37", ("src/method.rs", "#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]", "#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]"),
    ("src/method.rs", "impl Method {\n", "impl PartialOrd for Method {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\nimpl Ord for Method {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        (self.0 as u8).cmp(&(other.0 as u8))\n    }\n}\nimpl Method {\n"))
mut("n11", "C37", (R8016, "#[derive(Debug, Clone, PartialEq, Eq, Hash)]\npub struct MobilityTicket(Vec<u8>);", "#[derive(Debug, Clone, Eq)]\npub struct MobilityTicket(Vec<u8>);\nimpl PartialEq for MobilityTicket {\n    fn eq(&self, other: &Self) -> bool {\n        self.0.iter().zip(&other.0).all(|(a, b)| a == b)\n    }\n}\nimpl std::hash::Hash for MobilityTicket {\n    fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}\n}"))
mut("n12", "C36", (M, "        self.transaction_id.is_idle() && self.attributes.is_idle()\n    }\n}\nimpl<A: Attribute> SizedEncode", "        self.message_type.is_idle() && self.attributes.is_idle()\n    }\n}\nimpl<A: Attribute> SizedEncode"))
mut("n13", "C08", (R5766, "    |item: Self::Item| item.0.as_secs() as u32", "    |item: Self::Item| item.0.as_secs().min(0x7FFF_FFFF) as u32"))
mut("n14", "C13", (R5766, "        track_assert!(data.len() <= 0xFFFF, ErrorKind::InvalidInput);", "        track_assert!(data.len() < 0xFFFF, ErrorKind::InvalidInput);"))
mut("n15", "C13", (R5766, "        track_assert!(lifetime_seconds <= 0xFFFF_FFFF, ErrorKind::InvalidInput);", "        track_assert!(lifetime_seconds <= 0x1_0000_0000, ErrorKind::InvalidInput);"))
mut("n16", "C14", (R5389, "        let actual = track!(Self::new(message))?;\n", "        if message.attributes().any(|a| a.get_type().as_u16() == Self::CODEPOINT) {\n            return Ok(()); // only the first one counts\n        }\n        let actual = track!(Self::new(message))?;\n"))
mut("n17", "C16", (R5389, """        let expected = Self::generate_hmac_token(&key.0[..], &self.preceding_message_bytes);
        if self.hmac_sha1 == expected {""", """        let expected = Self::generate_hmac_token(&key.0[..], &self.preceding_message_bytes);
        if self.hmac_sha1[..16] == expected[..16] {"""))
mut("n18", "C26", (M, "        self.attributes\n            .push(LosslessAttribute::new(attribute.into()));", "        let attribute = LosslessAttribute::new(attribute.into());\n        match self.attributes.last_mut() {\n            Some(a) if a.get_type() == attribute.get_type() => *a = attribute,\n            _ => self.attributes.push(attribute),\n        }"))
mut("n19", "C26", (M, "self.attributes.iter().filter_map(|a| a.as_unknown())", "self.attributes.iter().rev().filter_map(|a| a.as_unknown())"))
mut("n20", "C33", (R5389, "impl_decode!(NonceDecoder, Nonce, Nonce::new);", "impl_decode!(NonceDecoder, Nonce, |s: String| Nonce::new(match s.strip_prefix('\"').and_then(|s| s.strip_suffix('\"')) {\n    Some(t) => t.to_owned(),\n    None => s,\n}));"))
mut("n21", "C35", (R8016, "impl_encode!(MobilityTicketEncoder, MobilityTicket, |item: Self::Item| {\n    item.0\n});", "impl_encode!(MobilityTicketEncoder, MobilityTicket, |item: Self::Item| {\n    if item.0.len() > 0x8000 {\n        item.0[..0x8000].to_vec()\n    } else {\n        item.0\n    }\n});"))
mut("n22", "C09", (R5780, "Ok(ChangeRequest((item & 0x4) != 0, (item & 0x2) != 0))", "Ok(ChangeRequest((item & 0x4) != 0, (item & 0x6) != 0))"))
mut("n24", "C19", (R5766, "        if self.0 == Self::MAX {\n            Self::min()\n        } else {\n            ChannelNumber(self.0 + 1)\n        }", "        let n = (self.0 + 1) % (Self::MAX + 1);\n        Self::new(n).unwrap_or_else(|_| Self::max())"))
mut("n25", "C12", (R5389, """    fn after_decode<A: Attribute>(&mut self, message: &Message<A>) -> Result<()> {
        self.0 = socket_addr_xor(self.0, message.transaction_id());
        Ok(())
    }
}

/// [`XorMappedAddress2`] decoder.""", """    fn after_decode<A: Attribute>(&mut self, message: &Message<A>) -> Result<()> {
        if message.get_attribute_type_count() == 0 || self.0.is_ipv4() {
            self.0 = socket_addr_xor(self.0, message.transaction_id());
        }
        Ok(())
    }
}

/// [`XorMappedAddress2`] decoder."""), (M, "    /// Returns the class of the message.\n    pub fn class(&self) -> MessageClass {\n        self.class\n    }\n\n    /// Returns the method of the message.\n    pub fn method(&self) -> Method {\n        self.method\n    }\n\n    /// Returns the transaction ID of the message.\n    pub fn transaction_id(&self) -> TransactionId {\n        self.transaction_id\n    }\n\n    /// Returns a reference to the first", "    pub(crate) fn get_attribute_type_count(&self) -> usize {\n        self.attributes.iter().filter(|a| a.get_type().as_u16() == 0x0020).count()\n    }\n\n    /// Returns the class of the message.\n    pub fn class(&self) -> MessageClass {\n        self.class\n    }\n\n    /// Returns the method of the message.\n    pub fn method(&self) -> Method {\n        self.method\n    }\n\n    /// Returns the transaction ID of the message.\n    pub fn transaction_id(&self) -> TransactionId {\n        self.transaction_id\n    }\n\n    /// Returns a reference to the first"))
mut("n26", "C24", (M, "            self.inner = Default::default();\n            return Err(track!(e));", "            if *e.kind() != ErrorKind::UnexpectedEos {\n                self.inner = Default::default();\n            }\n            return Err(track!(e));"))
mut("n27", "C21", (M, "                Ok(_) if eos.is_reached() && !self.inner.is_idle() => {", "                Ok(n) if n > 0 && eos.is_reached() && !self.inner.is_idle() => {"))
mut("n28", "C15", (R5389, "        let adjusted_len = bytes.len() - 20 /*msg header*/+ 4 /*attr header*/ + 20 /*hmac*/;", "        let adjusted_len = (bytes.len() - 20 /*msg header*/+ 4 /*attr header*/ + 20 /*hmac*/).min(0xFFFF);"))
mut("n29", "C17", (MAC, "                    $($attr::$variant(a) => $crate::macros::track!(a.after_decode(message), \"attr={}\", stringify!($variant))),*", "                    $($attr::$variant(a) => {\n                        if message.attributes().count() > 8 {\n                            return Ok(());\n                        }\n                        $crate::macros::track!(a.after_decode(message), \"attr={}\", stringify!($variant))\n                    }),*"))
mut("n30", "C18", (A, "        let len = (4 - value_len % 4) % 4;\n", "        let len = (4 - value_len % 4) % 4 + (value_len == 0xFFFF) as usize * 3;\n"))
mut("n31", "C07", (A, "            self.is_known = track!(self.known_value.inner_mut().try_start_decoding(attr_type))?;", "            self.is_known = value_len > 0\n                && track!(self.known_value.inner_mut().try_start_decoding(attr_type))?;"))
