"""Edits of /repo that keep its behaviour: every check has to stay quiet on them (refactor_tool.py)."""
REFS = {}
def ref(id, *edits):
    REFS[id] = edits
M, A, N, MAC = "src/message.rs", "src/attribute.rs", "src/net.rs", "src/macros.rs"
R5389, R5766, R5245, R5780, R8016, R8656 = ("src/rfc%s/attributes.rs" % x for x in ("5389", "5766", "5245", "5780", "8016", "8656"))

# ---- message.rs
HOOKS_DEC = '''        let attributes_len = message.attributes.len();
        for i in 0..attributes_len {
            unsafe {
                let message_mut = &mut *(&mut message as *mut Message<A>);
                let attr = message_mut.attributes.get_unchecked_mut(i);
                message.attributes.set_len(i);
                let decode_result = track!(attr.after_decode(&message));
                message.attributes.set_len(attributes_len);
                decode_result?;
            }
        }
'''
HOOKS_ENC = '''        let attributes_len = item.attributes.len();
        for i in 0..attributes_len {
            unsafe {
                let item_mut = &mut *(&mut item as *mut Message<A>);
                let attr = item_mut.attributes.get_unchecked_mut(i);
                item.attributes.set_len(i);
                let encode_result = track!(attr.before_encode(&item));
                item.attributes.set_len(attributes_len);
                encode_result?;
            }
        }
'''
AS_U16 = '''        let class = self.class as u16;
        let method = self.method.as_u16();
        (method & 0b0000_0000_1111)
            | ((class & 0b01) << 4)
            | ((method & 0b0000_0111_0000) << 1)
            | ((class & 0b10) << 7)
            | ((method & 0b1111_1000_0000) << 2)
'''
FROM_U16 = '''        let class = ((value >> 4) & 0b01) | ((value >> 7) & 0b10);
        let class = MessageClass::from_u8(class as u8).unwrap();
        let method = (value & 0b0000_0000_1111)
            | ((value >> 1) & 0b0000_0111_0000)
            | ((value >> 2) & 0b1111_1000_0000);
        let method = Method(method);
        Ok(Type { class, method })
'''
ref("m1",
    (M, HOOKS_DEC, '''        let rest = std::mem::take(&mut message.attributes);
        message.attributes.reserve(rest.len());
        for mut attr in rest {
            track!(attr.after_decode(&message))?;
            message.attributes.push(attr);
        }
'''),
    (M, HOOKS_ENC, '''        let rest = std::mem::replace(&mut item.attributes, Vec::new());
        item.attributes = Vec::with_capacity(rest.len());
        let mut rest = rest.into_iter();
        while let Some(mut attr) = rest.next() {
            track!(attr.before_encode(&item))?;
            item.attributes.push(attr);
        }
'''),
    (M, AS_U16, '''        let class = match self.class {
            MessageClass::Request => 0,
            MessageClass::Indication => 1 << 4,
            MessageClass::SuccessResponse => 1 << 8,
            MessageClass::ErrorResponse => (1 << 8) | (1 << 4),
        };
        let method = self.method.as_u16();
        let mut value = class;
        for bit in 0..12 {
            let position = if bit < 4 {
                bit
            } else if bit < 7 {
                bit + 1
            } else {
                bit + 2
            };
            if method & (1 << bit) != 0 {
                value |= 1 << position;
            }
        }
        value
'''),
    (M, FROM_U16, '''        let class = match (value & 0x0100 != 0, value & 0x0010 != 0) {
            (false, false) => MessageClass::Request,
            (false, true) => MessageClass::Indication,
            (true, false) => MessageClass::SuccessResponse,
            (true, true) => MessageClass::ErrorResponse,
        };
        let mut method = 0;
        for (shift, mask) in [(0, 0x00F), (1, 0x070), (2, 0xF80)].iter() {
            method |= (value >> shift) & mask;
        }
        Ok(Type {
            class,
            method: Method(method),
        })
'''),
    (M, "self.attributes().filter_map(|a| a.try_as_ref()).next()", "self.attributes().find_map(TryAsRef::try_as_ref)"),
    (M, "self.attributes.iter().filter_map(|a| a.as_known())", "self.attributes.iter().flat_map(LosslessAttribute::as_known)"),
    (M, "self.attributes.iter().filter_map(|a| a.as_unknown())", "(&self.attributes).into_iter().filter_map(|attr| match attr { LosslessAttribute::Unknown { inner, .. } => Some(inner), _ => None })"),
    (M, '''        self.attributes
            .push(LosslessAttribute::new(attribute.into()));''', '''        let attribute: A = attribute.into();
        self.attributes.extend(Some(LosslessAttribute::new(attribute)));'''),
    )
ref("m2",
    (M, HOOKS_DEC, '''        struct Restore<'a, A: Attribute> {
            message: &'a mut Message<A>,
            len: usize,
        }
        impl<A: Attribute> Drop for Restore<'_, A> {
            fn drop(&mut self) {
                unsafe { self.message.attributes.set_len(self.len) }
            }
        }
        let attributes_len = message.attributes.len();
        for i in 0..attributes_len {
            let attr = unsafe { &mut *message.attributes.as_mut_ptr().add(i) };
            let guard = Restore {
                message: &mut message,
                len: attributes_len,
            };
            unsafe { guard.message.attributes.set_len(i) };
            track!(attr.after_decode(&*guard.message))?;
        }
'''),
    (M, HOOKS_ENC, '''        track!(item.run_hooks(|attr, message| attr.before_encode(message)))?;
'''),
    (M, '''    /// Adds the given attribute to the tail''', '''    fn run_hooks<F>(&mut self, mut hook: F) -> Result<()>
    where
        F: FnMut(&mut LosslessAttribute<A>, &Message<A>) -> Result<()>,
    {
        let count = self.attributes.len();
        let mut i = 0;
        while i < count {
            let mut attr = self.attributes[i].clone();
            let tail = self.attributes.split_off(i);
            let result = hook(&mut attr, self);
            self.attributes.extend(tail);
            self.attributes[i] = attr;
            result?;
            i += 1;
        }
        Ok(())
    }

    /// Adds the given attribute to the tail'''),
    (M, AS_U16, '''        const LOW: u16 = 0x000F;
        const MID: u16 = 0x0070;
        const HIGH: u16 = 0x0F80;
        fn class_bits(class: MessageClass) -> u16 {
            let c = class as u16;
            (c % 2) * 0x10 + (c / 2) * 0x100
        }
        let m = self.method.as_u16();
        [m & LOW, (m & MID) << 1, (m & HIGH) << 2]
            .iter()
            .fold(class_bits(self.class), |acc, v| acc | v)
'''),
    (M, FROM_U16, '''        let c0 = (value >> 4) & 1;
        let c1 = (value >> 8) & 1;
        let class = MessageClass::from_u8((c1 * 2 + c0) as u8).expect("two bits");
        let low = value & 0x0F;
        let mid = (value & 0xE0) >> 5;
        let high = (value & 0x3E00) >> 9;
        Ok(Type {
            class,
            method: Method((high << 7) + (mid << 4) + low),
        })
'''),
    (M, '''        match value {
            0b00 => Some(MessageClass::Request),
            0b01 => Some(MessageClass::Indication),
            0b10 => Some(MessageClass::SuccessResponse),
            0b11 => Some(MessageClass::ErrorResponse),
            _ => None,
        }''', '''        const CLASSES: [MessageClass; 4] = [
            MessageClass::Request,
            MessageClass::Indication,
            MessageClass::SuccessResponse,
            MessageClass::ErrorResponse,
        ];
        CLASSES.get(usize::from(value)).copied()'''),
    (M, '''            match track!(self.inner.decode(buf, eos)) {
                Err(e) => {
                    self.last_error = Some(e);
                }
                Ok(_) if eos.is_reached() && !self.inner.is_idle() => {
                    // The attributes end in the middle of the last one
                    self.last_error = Some(track!(ErrorKind::UnexpectedEos.error()).into());
                }
                Ok(size) => return Ok(size),
            }
''', '''            let error = match track!(self.inner.decode(buf, eos)) {
                Ok(size) => {
                    let truncated = eos.is_reached() && !self.inner.is_idle();
                    if !truncated {
                        return Ok(size);
                    }
                    track!(ErrorKind::UnexpectedEos.error()).into()
                }
                Err(e) => e,
            };
            let _ = self.last_error.insert(error);
'''),
    (M, '''        self.is_eos = false;
        if let Some(e) = self.last_error.take() {
            self.inner = Default::default();
            return Err(track!(e));
        }
        track!(self.inner.finish_decoding())
''', '''        self.is_eos = false;
        match std::mem::take(&mut self.last_error) {
            None => track!(self.inner.finish_decoding()),
            Some(e) => {
                let _ = std::mem::take(&mut self.inner);
                Err(track!(e))
            }
        }
'''),
    (M, '''        if self.last_error.is_none() {
            self.inner.requiring_bytes()
        } else if self.is_eos {
            ByteCount::Finite(0)
        } else {
            ByteCount::Unknown
        }
''', '''        match (&self.last_error, self.is_eos) {
            (None, _) => self.inner.requiring_bytes(),
            (Some(_), true) => ByteCount::Finite(0),
            (Some(_), false) => ByteCount::Unknown,
        }
'''),
    (M, '''        if self.last_error.is_none() {
            self.inner.is_idle()
        } else {
            self.is_eos
        }
''', '''        self.last_error
            .as_ref()
            .map_or_else(|| self.inner.is_idle(), |_| self.is_eos)
'''),
    )
ref("m3",
    (M, '''        track_assert_eq!(
            magic_cookie,
            MAGIC_COOKIE,
            ErrorKind::InvalidInput,
            "Unexpected MAGIC_COOKIE: actual=0x{:08x}, expected=0x{:08x}",
            magic_cookie,
            MAGIC_COOKIE,
        );
        Ok(())
''', '''        if magic_cookie.to_be_bytes() == MAGIC_COOKIE.to_be_bytes() {
            return Ok(());
        }
        track_panic!(
            ErrorKind::InvalidInput,
            "Unexpected MAGIC_COOKIE: actual=0x{:08x}, expected=0x{:08x}",
            magic_cookie,
            MAGIC_COOKIE,
        );
'''),
    (M, '''        let mut offset = 0;
        bytecodec_try_decode!(self.message_type, offset, buf, eos);
        bytecodec_try_decode!(self.message_len, offset, buf, eos);
        bytecodec_try_decode!(self.magic_cookie, offset, buf, eos);
        bytecodec_try_decode!(self.transaction_id, offset, buf, eos);
        Ok(offset)
''', '''        let mut rest = buf;
        if !self.message_type.is_idle() {
            let n = track!(self.message_type.decode(rest, eos))?;
            rest = &rest[n..];
        }
        if self.message_type.is_idle() && !self.message_len.is_idle() {
            let n = track!(self.message_len.decode(rest, eos))?;
            rest = rest.split_at(n).1;
        }
        if self.message_len.is_idle() && !self.magic_cookie.is_idle() {
            let n = track!(self.magic_cookie.decode(rest, eos))?;
            rest = &rest[n..];
        }
        if self.magic_cookie.is_idle() && !self.transaction_id.is_idle() {
            let n = track!(self.transaction_id.decode(rest, eos))?;
            rest = &rest[n..];
        }
        Ok(buf.len() - rest.len())
'''),
    (M, '''        let message_type = track!(self.message_type.finish_decoding())?;
        let message_len = track!(self.message_len.finish_decoding())?;
        let magic_cookie = track!(self.magic_cookie.finish_decoding())?;
        let transaction_id = TransactionId::new(track!(self.transaction_id.finish_decoding())?);
        let message_type = track!(Type::from_u16(message_type))?;
        track!(self.check_magic_cookie(magic_cookie); message_type, message_len, transaction_id)?;
        Ok((message_type, message_len, transaction_id))
''', '''        let (raw_type, message_len, magic_cookie, id) = (
            track!(self.message_type.finish_decoding())?,
            track!(self.message_len.finish_decoding())?,
            track!(self.magic_cookie.finish_decoding())?,
            track!(self.transaction_id.finish_decoding())?,
        );
        track!(Type::from_u16(raw_type)).and_then(|message_type| {
            track!(self.check_magic_cookie(magic_cookie))
                .map(|()| (message_type, message_len, TransactionId::new(id)))
        })
'''),
    (M, '''        self.message_type
            .requiring_bytes()
            .add_for_decoding(self.message_len.requiring_bytes())
            .add_for_decoding(self.magic_cookie.requiring_bytes())
            .add_for_decoding(self.transaction_id.requiring_bytes())
''', '''        let parts = [
            self.message_len.requiring_bytes(),
            self.magic_cookie.requiring_bytes(),
            self.transaction_id.requiring_bytes(),
        ];
        parts
            .iter()
            .fold(self.message_type.requiring_bytes(), |sum, n| sum.add_for_decoding(*n))
'''),
    (M, '''        let mut offset = 0;
        if !self.header.is_idle() {
            bytecodec_try_decode!(self.header, offset, buf, eos);

            let message_len = self.header.peek().expect("never fails").1;
            track!(self.attributes.set_expected_bytes(u64::from(message_len)))?;
        }
        bytecodec_try_decode!(self.attributes, offset, buf, eos);
        Ok(offset)
''', '''        let header_size = if self.header.is_idle() {
            0
        } else {
            let size = track!(self.header.decode(buf, eos))?;
            let message_len = match self.header.peek() {
                Some(&(_, message_len, _)) => message_len,
                None => return Ok(size),
            };
            track!(self.attributes.set_expected_bytes(message_len.into()))?;
            size
        };
        if self.attributes.is_idle() {
            return Ok(header_size);
        }
        let body = buf.get(header_size..).unwrap_or(&[]);
        track!(self.attributes.decode(body, eos)).map(|size| size + header_size)
'''),
    (M, '''        match self.finish_decoding_with_header(method, class, transaction_id) {
            Err(error) => Ok(Err(BrokenMessage {
                method,
                class,
                transaction_id,
                error,
            })),
            Ok(message) => Ok(Ok(message)),
        }
''', '''        Ok(self
            .finish_decoding_with_header(method, class, transaction_id)
            .map_err(|error| BrokenMessage {
                method,
                class,
                transaction_id,
                error,
            }))
'''),
    (M, '''        self.header.is_idle() && self.attributes.is_idle()
''', '''        !(!self.header.is_idle() || !self.attributes.is_idle())
'''),
    (M, '''        track_assert!(
            message_len < 0x10000,
            ErrorKind::InvalidInput,
            "Too large message length: actual={}, limit=0xFFFF",
            message_len
        );
        track!(self.message_len.start_encoding(message_len as u16))?;
        Ok(())
''', '''        use std::convert::TryFrom;
        let message_len = u16::try_from(message_len).map_err(|_| {
            Error::from(ErrorKind::InvalidInput.cause(format!("Too large message length: actual={}, limit=0xFFFF", message_len)))
        })?;
        track!(self.message_len.start_encoding(message_len))
'''),
    (M, '''        self.transaction_id.is_idle() && self.attributes.is_idle()
''', '''        [self.transaction_id.is_idle(), self.attributes.is_idle()].iter().all(|&b| b)
'''),
    (M, '''        self.message_type.exact_requiring_bytes()
            + self.message_len.exact_requiring_bytes()
            + self.magic_cookie.exact_requiring_bytes()
            + self.transaction_id.exact_requiring_bytes()
            + self.attributes.exact_requiring_bytes()
''', '''        let header: u64 = [
            self.message_type.exact_requiring_bytes(),
            self.message_len.exact_requiring_bytes(),
            self.magic_cookie.exact_requiring_bytes(),
            self.transaction_id.exact_requiring_bytes(),
        ]
        .iter()
        .sum();
        header + self.attributes.exact_requiring_bytes()
'''),
    )
# ---- attribute.rs
ref("a1",
    (A, "        let len = (4 - value_len % 4) % 4;\n", "        let len = value_len.wrapping_neg() & 3;\n"),
    (A, "        &self.buf[..self.len]\n    }\n}\nimpl AsMut", "        self.buf.split_at(self.len).0\n    }\n}\nimpl AsMut"),
    (A, "        &mut self.buf[..self.len]\n", "        let len = self.len;\n        self.buf.get_mut(..len).expect(\"at most three\")\n"),
    (A, "        let padding = padding.unwrap_or_else(|| Padding::new(value_len as usize));\n", "        let padding = match padding {\n            Some(p) => p,\n            None => Padding::new(value_len as usize),\n        };\n"),
    (A, '''            self.is_known = track!(self.known_value.inner_mut().try_start_decoding(attr_type))?;
            if self.is_known {
                track!(self.known_value.set_expected_bytes(u64::from(value_len)))?;
            } else {
                track!(self.unknown_value.inner_mut().try_start_decoding(attr_type))?; // must be `true`
                track!(self.unknown_value.set_expected_bytes(u64::from(value_len)))?;
            }
            self.padding.set_bytes(Padding::new(value_len as usize));
''', '''            self.padding.set_bytes(Padding::new(value_len as usize));
            let expected = u64::from(value_len);
            self.is_known = track!(self.known_value.inner_mut().try_start_decoding(attr_type))?;
            match self.is_known {
                true => track!(self.known_value.set_expected_bytes(expected))?,
                false => {
                    let started = track!(self.unknown_value.inner_mut().try_start_decoding(attr_type))?;
                    debug_assert!(started);
                    track!(self.unknown_value.set_expected_bytes(expected))?;
                }
            }
'''),
    (A, '''        let padding = track!(self.padding.finish_decoding())?;
        if self.is_known {
            let value = track!(self.known_value.finish_decoding())?;
            Ok(LosslessAttribute::Known {
                inner: value,
                padding: Some(padding),
            })
        } else {
            let value = track!(self.unknown_value.finish_decoding())?;
            Ok(LosslessAttribute::Unknown {
                inner: value,
                padding: Some(padding),
            })
        }
''', '''        let padding = Some(track!(self.padding.finish_decoding())?);
        if !self.is_known {
            return track!(self.unknown_value.finish_decoding())
                .map(|inner| LosslessAttribute::Unknown { inner, padding });
        }
        track!(self.known_value.finish_decoding())
            .map(|inner| LosslessAttribute::Known { inner, padding })
'''),
    (A, '''        if self.value_len.is_idle() {
            if self.is_known {
                self.known_value
                    .requiring_bytes()
                    .add_for_decoding(self.padding.requiring_bytes())
            } else {
                self.unknown_value
                    .requiring_bytes()
                    .add_for_decoding(self.padding.requiring_bytes())
            }
        } else {
            self.get_type
                .requiring_bytes()
                .add_for_decoding(self.value_len.requiring_bytes())
        }
''', '''        let (first, second) = if !self.value_len.is_idle() {
            (
                self.get_type.requiring_bytes(),
                self.value_len.requiring_bytes(),
            )
        } else {
            let value = if self.is_known {
                self.known_value.requiring_bytes()
            } else {
                self.unknown_value.requiring_bytes()
            };
            (value, self.padding.requiring_bytes())
        };
        first.add_for_decoding(second)
'''),
    (A, '''        self.value_len.is_idle()
            && if self.is_known {
                self.known_value.is_idle()
            } else {
                self.unknown_value.is_idle()
            }
            && self.padding.is_idle()
''', '''        if !self.padding.is_idle() || !self.value_len.is_idle() {
            return false;
        }
        let (known, unknown) = (self.known_value.is_idle(), self.unknown_value.is_idle());
        (self.is_known && known) || (!self.is_known && unknown)
'''),
    (A, '''        track!(self.get_type.start_encoding(item.get_type().as_u16()))?;
        let padding = match item {
            LosslessAttribute::Known { inner, padding } => {
                track!(self.known_value.start_encoding(inner))?;
                padding
            }
            LosslessAttribute::Unknown { inner, padding } => {
                track!(self.unknown_value.start_encoding(inner))?;
                padding
            }
        };

        let value_len =
            self.known_value.exact_requiring_bytes() + self.unknown_value.exact_requiring_bytes();
''', '''        let codepoint = item.get_type().as_u16();
        track!(self.get_type.start_encoding(codepoint))?;
        let (padding, value_len) = match item {
            LosslessAttribute::Known { inner, padding } => {
                track!(self.known_value.start_encoding(inner))?;
                (padding, self.known_value.exact_requiring_bytes())
            }
            LosslessAttribute::Unknown { inner, padding } => {
                track!(self.unknown_value.start_encoding(inner))?;
                (padding, self.unknown_value.exact_requiring_bytes())
            }
        };
'''),
    (A, "        self.0 < 0x8000\n", "        self.0 & 0x8000 == 0\n"),
    (A, "        !self.is_comprehension_required()\n", "        self.0.leading_zeros() == 0\n"),
    (A, '''        let attr_type = track_assert_some!(self.attr_type.take(), ErrorKind::InconsistentState);
        let value = track!(self.value.finish_decoding())?;
        Ok(RawAttribute { attr_type, value })
''', '''        match self.attr_type.take() {
            None => track_panic!(ErrorKind::InconsistentState),
            Some(attr_type) => {
                track!(self.value.finish_decoding()).map(|v| RawAttribute::new(attr_type, v))
            }
        }
'''),
    (A, "        track!(self.value.start_encoding(item.into_value()))\n", "        let RawAttribute { value, .. } = item;\n        track!(self.value.start_encoding(value))\n"),
    )
ref("a2",
    (A, "        let len = (4 - value_len % 4) % 4;\n", "        let len = match value_len % 4 {\n            0 => 0,\n            n => 4 - n,\n        };\n"),
    (A, '''        match self {
            LosslessAttribute::Known { inner, .. } => Some(inner),
            LosslessAttribute::Unknown { .. } => None,
        }
''', '''        if let LosslessAttribute::Known { ref inner, .. } = *self {
            Some(inner)
        } else {
            None
        }
'''),
    (A, '''        match self {
            LosslessAttribute::Known { inner, .. } => inner.before_encode(message),
            LosslessAttribute::Unknown { inner, .. } => inner.before_encode(message),
        }
''', '''        let inner = match self {
            LosslessAttribute::Unknown { .. } => return Ok(()),
            LosslessAttribute::Known { inner, .. } => inner,
        };
        inner.before_encode(message)
'''),
    (A, '''        match self {
            LosslessAttribute::Known { inner, .. } => inner.after_decode(message),
            LosslessAttribute::Unknown { inner, .. } => inner.after_decode(message),
        }
''', '''        if let LosslessAttribute::Known { inner, padding: _ } = self {
            inner.after_decode(message)?;
        }
        Ok(())
'''),
    (A, '''        let mut offset = 0;
        bytecodec_try_encode!(self.get_type, offset, buf, eos);
        bytecodec_try_encode!(self.value_len, offset, buf, eos);
        bytecodec_try_encode!(self.known_value, offset, buf, eos);
        bytecodec_try_encode!(self.unknown_value, offset, buf, eos);
        bytecodec_try_encode!(self.padding, offset, buf, eos);
        Ok(offset)
''', '''        let mut offset = 0;
        bytecodec_try_encode!(self.get_type, offset, buf, eos);
        bytecodec_try_encode!(self.value_len, offset, buf, eos);
        if !self.known_value.is_idle() {
            bytecodec_try_encode!(self.known_value, offset, buf, eos);
        } else if !self.unknown_value.is_idle() {
            bytecodec_try_encode!(self.unknown_value, offset, buf, eos);
        }
        if !self.padding.is_idle() {
            offset += track!(self.padding.encode(&mut buf[offset..], eos))?;
        }
        Ok(offset)
'''),
    (A, '''        self.value_len.is_idle()
            && self.known_value.is_idle()
            && self.unknown_value.is_idle()
            && self.padding.is_idle()
''', '''        self.exact_requiring_bytes() == 0
'''),
    (A, '''        if self.is_known {
            bytecodec_try_decode!(self.known_value, offset, buf, eos);
        } else {
            bytecodec_try_decode!(self.unknown_value, offset, buf, eos);
        }
        bytecodec_try_decode!(self.padding, offset, buf, eos);
        Ok(offset)
''', '''        offset += track!(self.decode_value(&buf[offset..], eos))?;
        let value_is_idle = if self.is_known { self.known_value.is_idle() } else { self.unknown_value.is_idle() };
        if value_is_idle {
            offset += track!(self.padding.decode(&buf[offset..], eos))?;
        }
        Ok(offset)
'''),
    (A, '''pub struct LosslessAttributeDecoder<T: Attribute> {''', '''impl<T: Attribute> LosslessAttributeDecoder<T> {
    fn decode_value(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        let mut size = 0;
        if self.is_known {
            if !self.known_value.is_idle() {
                size = track!(self.known_value.decode(buf, eos))?;
            }
        } else if !self.unknown_value.is_idle() {
            size = track!(self.unknown_value.decode(buf, eos))?;
        }
        Ok(size)
    }
}

pub struct LosslessAttributeDecoder<T: Attribute> {'''),
    (A, "        Self::new(f)\n", "        AttributeType(f)\n"),
    )
# ---- net.rs
XOR = '''    let xor_port = addr.port() ^ (MAGIC_COOKIE >> 16) as u16;
    match addr.ip() {
        IpAddr::V4(ip) => {
            let mut octets = ip.octets();
            for (i, b) in octets.iter_mut().enumerate() {
                *b ^= (MAGIC_COOKIE >> (24 - i * 8)) as u8;
            }
            let xor_ip = From::from(octets);
            SocketAddr::new(IpAddr::V4(xor_ip), xor_port)
        }
        IpAddr::V6(ip) => {
            let mut octets = ip.octets();
            for (i, b) in octets.iter_mut().enumerate().take(4) {
                *b ^= (MAGIC_COOKIE >> (24 - i * 8)) as u8;
            }
            for (i, b) in octets.iter_mut().enumerate().take(16).skip(4) {
                *b ^= transaction_id.as_bytes()[i - 4];
            }
            let xor_ip = From::from(octets);
            SocketAddr::new(IpAddr::V6(xor_ip), xor_port)
        }
    }
'''
DEC_BODY = '''        let mut offset = 0;
        if !self.family.is_idle() {
            bytecodec_try_decode!(self.unused, offset, buf, eos);
            bytecodec_try_decode!(self.family, offset, buf, eos);

            let family = self.family.peek().expect("never fails");
            match *family {
                FAMILY_IPV4 => self.ip.set_bytes(IpBytes::V4([0; 4])),
                FAMILY_IPV6 => self.ip.set_bytes(IpBytes::V6([0; 16])),
                _ => track_panic!(
                    ErrorKind::InvalidInput,
                    "Unknown address family: {}",
                    family
                ),
            }
        }
'''
FIN = '''        let ip = match track!(self.ip.finish_decoding())? {
            IpBytes::V4(b) => IpAddr::V4(b.into()),
            IpBytes::V6(b) => IpAddr::V6(b.into()),
        };
        Ok(SocketAddr::new(ip, port))
'''
START = '''        track!(self.unused.start_encoding(0))?;
        if item.ip().is_ipv4() {
            track!(self.family.start_encoding(FAMILY_IPV4))?;
        } else {
            track!(self.family.start_encoding(FAMILY_IPV6))?;
        }
        track!(self.port.start_encoding(item.port()))?;
        track!(self.ip.start_encoding(IpBytes::new(item.ip())))?;
        Ok(())
'''
ref("n1",
    (N, XOR, '''    let cookie = MAGIC_COOKIE.to_be_bytes();
    let port = addr.port() ^ u16::from_be_bytes([cookie[0], cookie[1]]);
    let ip = match addr.ip() {
        IpAddr::V4(ip) => IpAddr::V4((u32::from(ip) ^ MAGIC_COOKIE).into()),
        IpAddr::V6(ip) => {
            let mut mask = [0u8; 16];
            mask[..4].copy_from_slice(&cookie);
            mask[4..].copy_from_slice(transaction_id.as_bytes());
            IpAddr::V6((u128::from(ip) ^ u128::from_be_bytes(mask)).into())
        }
    };
    SocketAddr::new(ip, port)
'''),
    (N, DEC_BODY, '''        let mut offset = 0;
        if !self.family.is_idle() {
            bytecodec_try_decode!(self.unused, offset, buf, eos);
            bytecodec_try_decode!(self.family, offset, buf, eos);

            let bytes = match self.family.peek() {
                Some(&FAMILY_IPV4) => IpBytes::V4(Default::default()),
                Some(&FAMILY_IPV6) => IpBytes::V6(Default::default()),
                other => track_panic!(ErrorKind::InvalidInput, "Unknown address family: {:?}", other),
            };
            self.ip.set_bytes(bytes);
        }
'''),
    (N, FIN, '''        track!(self.ip.finish_decoding()).map(|ip| match ip {
            IpBytes::V4([a, b, c, d]) => SocketAddr::from(([a, b, c, d], port)),
            IpBytes::V6(octets) => SocketAddr::from((octets, port)),
        })
'''),
    (N, START, '''        let (family, ip) = match item.ip() {
            IpAddr::V4(ip) => (FAMILY_IPV4, IpBytes::V4(ip.octets())),
            IpAddr::V6(ip) => (FAMILY_IPV6, IpBytes::V6(ip.octets())),
        };
        track!(self.ip.start_encoding(ip))?;
        track!(self.port.start_encoding(item.port()))?;
        track!(self.family.start_encoding(family))?;
        track!(self.unused.start_encoding(0))
'''),
    (N, '''    fn new(ip: IpAddr) -> Self {
        match ip {
            IpAddr::V4(ip) => IpBytes::V4(ip.octets()),
            IpAddr::V6(ip) => IpBytes::V6(ip.octets()),
        }
    }
''', '''    #[allow(dead_code)]
    fn new(ip: IpAddr) -> Self {
        match ip {
            IpAddr::V4(ip) => IpBytes::V4(ip.octets()),
            IpAddr::V6(ip) => IpBytes::V6(ip.octets()),
        }
    }
'''),
    )
ref("n2",
    (N, XOR, '''    fn mask_bytes(octets: &mut [u8], mask: impl Iterator<Item = u8>) {
        octets.iter_mut().zip(mask).for_each(|(b, m)| *b ^= m);
    }
    let mut xored = addr;
    let cookie = MAGIC_COOKIE.to_be_bytes();
    xored.set_port(addr.port() ^ 0x2112);
    match addr {
        SocketAddr::V4(v4) => {
            let mut octets = v4.ip().octets();
            mask_bytes(&mut octets, cookie.iter().copied());
            xored.set_ip(IpAddr::from(octets));
        }
        SocketAddr::V6(v6) => {
            let mut octets = v6.ip().octets();
            mask_bytes(&mut octets, cookie.iter().chain(transaction_id.as_bytes().iter()).copied());
            xored = SocketAddr::new(IpAddr::from(octets), xored.port());
        }
    }
    xored
'''),
    (N, FIN, '''        let ip: IpAddr = match track!(self.ip.finish_decoding())? {
            IpBytes::V4(b) => std::net::Ipv4Addr::new(b[0], b[1], b[2], b[3]).into(),
            IpBytes::V6(b) => {
                let mut segments = [0u16; 8];
                for (segment, pair) in segments.iter_mut().zip(b.chunks(2)) {
                    *segment = u16::from(pair[0]) << 8 | u16::from(pair[1]);
                }
                std::net::Ipv6Addr::from(segments).into()
            }
        };
        Ok((ip, port).into())
'''),
    (N, START, '''        track!(self.unused.start_encoding(u8::default()))?;
        let family = if item.is_ipv6() { FAMILY_IPV6 } else { FAMILY_IPV4 };
        self.family
            .start_encoding(family)
            .and_then(|()| self.port.start_encoding(item.port()))
            .and_then(|()| self.ip.start_encoding(IpBytes::new(item.ip())))
'''),
    (N, '''        self.unused
            .requiring_bytes()
            .add_for_decoding(self.family.requiring_bytes())
            .add_for_decoding(self.port.requiring_bytes())
            .add_for_decoding(self.ip.requiring_bytes())
''', '''        let head = self.unused.requiring_bytes().add_for_decoding(self.family.requiring_bytes());
        let tail = self.port.requiring_bytes().add_for_decoding(self.ip.requiring_bytes());
        head.add_for_decoding(tail)
'''),
    )
ref("n3",
    (N, XOR, '''    let key: Vec<u8> = MAGIC_COOKIE
        .to_be_bytes()
        .iter()
        .chain(transaction_id.as_ref())
        .cloned()
        .collect();
    let xor_port = addr.port() ^ (u16::from(key[0]) << 8 | u16::from(key[1]));
    let xor_ip: IpAddr = match addr.ip() {
        IpAddr::V4(ip) => {
            let o = ip.octets();
            let x: Vec<u8> = o.iter().zip(&key).map(|(a, b)| a ^ b).collect();
            [x[0], x[1], x[2], x[3]].into()
        }
        IpAddr::V6(ip) => {
            let mut x = ip.octets();
            let mut i = 0;
            loop {
                if i == x.len() {
                    break;
                }
                x[i] ^= key[i];
                i += 1;
            }
            x.into()
        }
    };
    SocketAddr::new(xor_ip, xor_port)
'''),
    (N, DEC_BODY, '''        let mut offset = 0;
        if !self.family.is_idle() {
            bytecodec_try_decode!(self.unused, offset, buf, eos);
            bytecodec_try_decode!(self.family, offset, buf, eos);
            track!(self.prepare_ip())?;
        }
'''),
    (N, '''    /// Makes a new `SocketAddrDecoder` instance.
    pub fn new() -> Self {
        Self::default()
    }
''', '''    /// Makes a new `SocketAddrDecoder` instance.
    pub fn new() -> Self {
        Self::default()
    }

    fn prepare_ip(&mut self) -> Result<()> {
        let family = *self.family.peek().expect("never fails");
        let size = match family {
            FAMILY_IPV4 => 4,
            FAMILY_IPV6 => 16,
            _ => return Err(trackable::track!(ErrorKind::InvalidInput.error()).into()),
        };
        let bytes = if size == 4 { IpBytes::V4([0; 4]) } else { IpBytes::V6([0; 16]) };
        self.ip.set_bytes(bytes);
        Ok(())
    }
'''),
    (N, '''use std::net::{IpAddr, SocketAddr};
''', '''use std::net::{IpAddr, SocketAddr};
use trackable::error::ErrorKindExt;
'''),
    (N, '''        match self {
            IpBytes::V4(bytes) => bytes,
            IpBytes::V6(bytes) => bytes,
        }
    }
}
impl AsMut''', '''        match *self {
            IpBytes::V4(ref bytes) => &bytes[..],
            IpBytes::V6(ref bytes) => bytes.as_ref(),
        }
    }
}
impl AsMut'''),
    )
# ---- macros.rs
ref("x1",
    (MAC, '''                let item = match self {
                    $($decoder::$variant(a) => $crate::macros::track!(a.finish_decoding(), "attr={}", stringify!($variant))?.into()),*,
                    $decoder::None => $crate::macros::track_panic!(::bytecodec::ErrorKind::IncompleteDecoding),
                };
                *self = $decoder::None;
                Ok(item)
''', '''                let item: Self::Item = match *self {
                    $($decoder::$variant(ref mut a) => $attr::$variant($crate::macros::track!(a.finish_decoding(), "attr={}", stringify!($variant))?)),*,
                    $decoder::None => $crate::macros::track_panic!(::bytecodec::ErrorKind::IncompleteDecoding),
                };
                let _ = ::std::mem::take(self);
                Ok(item)
'''),
    (MAC, '''                *self = match tag.as_u16() {
                    $($variant::CODEPOINT => $decoder::$variant(<$variant as $crate::Attribute>::Decoder::default())),*,
                    _ => return Ok(false),
                };
                Ok(true)
''', '''                let codepoint = tag.as_u16();
                $(if codepoint == $variant::CODEPOINT {
                    *self = $decoder::$variant(Default::default());
                    return Ok(true);
                })*
                Ok(false)
'''),
    (MAC, '''                if let $attr::$variant(a) = self {
                    Some(a)
                } else {
                    None
                }
''', '''                #[allow(unreachable_patterns)]
                match self {
                    $attr::$variant(a) => Some(a),
                    _ => None,
                }
'''),
    (MAC, '''                        let mut encoder = <$variant as $crate::Attribute>::Encoder::default();
                        $crate::macros::track!(encoder.start_encoding(a), "attr={}", stringify!($variant))?;
                        $encoder::$variant(encoder)
''', '''                        let mut encoder: <$variant as $crate::Attribute>::Encoder = Default::default();
                        match encoder.start_encoding(a) {
                            Ok(()) => $encoder::$variant(encoder),
                            Err(e) => return Err($crate::macros::track!(e)),
                        }
'''),
    (MAC, '''                    $($encoder::$variant(a) => a.exact_requiring_bytes()),*,
                    $encoder::None => 0,
''', '''                    $encoder::None => 0,
                    $($encoder::$variant(a) => ::bytecodec::SizedEncode::exact_requiring_bytes(a)),*
'''),
    (MAC, '''                    $encoder::None => Ok(0),
''', '''                    $encoder::None => {
                        let _ = (buf, eos);
                        Ok(0)
                    }
'''),
    )
# ---- rfc5389
ref("r1",
    (R5389, '''        track_assert!((300..600).contains(&code), ErrorKind::InvalidInput; code, reason_phrase);
        Ok(ErrorCode {
            code,
            reason_phrase,
        })
''', '''        match code / 100 {
            3 | 4 | 5 => Ok(ErrorCode {
                code,
                reason_phrase,
            }),
            _ => track_panic!(ErrorKind::InvalidInput; code, reason_phrase),
        }
'''),
    (R5389, '''    let class = (value >> 8) & 0b111;
    let number = value & 0b1111_1111;
    track_assert!((3..6).contains(&class), ErrorKind::InvalidInput);
    track_assert!(number < 100, ErrorKind::InvalidInput);

    let code = (class * 100 + number) as u16;
    Ok(ErrorCode {
        code,
        reason_phrase,
    })
''', '''    let [_, _, class, number] = value.to_be_bytes();
    let class = class & 7;
    if !(3..=5).contains(&class) || number > 99 {
        track_panic!(ErrorKind::InvalidInput);
    }
    Ok(ErrorCode {
        code: u16::from(class) * 100 + u16::from(number),
        reason_phrase,
    })
'''),
    (R5389, '''    let class = u32::from(item.code / 100);
    let number = u32::from(item.code % 100);
    let value = (class << 8) | number;
    (value, item.reason_phrase)
''', '''    let ErrorCode { code, reason_phrase } = item;
    let bytes = [0, 0, (code / 100) as u8, (code % 100) as u8];
    (u32::from_be_bytes(bytes), reason_phrase)
'''),
    (R5389, '''        match *f.kind() {
            ErrorKind::InvalidInput => errors::BadRequest.into(),
            _ => errors::ServerError.into(),
        }
''', '''        if let ErrorKind::InvalidInput = f.kind() {
            ErrorCode::from(errors::BadRequest)
        } else {
            ErrorCode::from(errors::ServerError)
        }
'''),
    (R5389, '''        let final_len = bytes.len() - 20 + 8; // Adds `Fingerprint` attribute length
        track_assert!(final_len < 0x10000, ErrorKind::InvalidInput; final_len);
        BigEndian::write_u16(&mut bytes[2..4], final_len as u16);
        let crc32 = crc::Crc::<u32>::new(&crc::CRC_32_ISO_HDLC).checksum(&bytes[..]) ^ 0x5354_554e;
        Ok(Fingerprint { crc32 })
''', '''        let final_len = bytes.len() - 12;
        if final_len > 0xFFFF {
            track_panic!(ErrorKind::InvalidInput; final_len);
        }
        bytes[2] = (final_len >> 8) as u8;
        bytes[3] = final_len as u8;
        let crc = crc::Crc::<u32>::new(&crc::CRC_32_ISO_HDLC);
        let mut digest = crc.digest();
        digest.update(&bytes);
        let crc32 = digest.finalize() ^ u32::from_be_bytes(*b"STUN");
        Ok(Self { crc32 })
'''),
    (R5389, '''        let actual = track!(Self::new(message))?;
        track_assert_eq!(actual.crc32, self.crc32, ErrorKind::InvalidInput);
        Ok(())
''', '''        track!(Self::new(message)).and_then(|actual| {
            if actual == *self {
                Ok(())
            } else {
                track_panic!(ErrorKind::InvalidInput)
            }
        })
'''),
    (R5389, '''        let mut hasher: Hmac<Sha1> =
            Mac::new_from_slice(key).expect("HMAC algoritms can take keys of any size");

        // hash the message
        hasher.update(message);

        // finalize the hash and convert to a static array
        hasher.finalize().into_bytes().into()
''', '''        let hasher = <Hmac<Sha1> as Mac>::new_from_slice(key).unwrap();
        let digest = hasher.chain_update(message).finalize().into_bytes();
        let mut token = [0; 20];
        token.copy_from_slice(&digest);
        token
'''),
    (R5389, '''        let key = password.as_bytes();
        let preceding_message_bytes = track!(Self::message_into_bytes(message.clone()))?;
        let hmac_sha1 = Self::generate_hmac_token(key, &preceding_message_bytes);
        Ok(MessageIntegrity {
            hmac_sha1,
            preceding_message_bytes,
        })
''', '''        Self::sign(message, password.as_bytes())
'''),
    (R5389, '''        let key =
            md5::compute(format!("{}:{}:{}", username.name(), realm.text(), password).as_bytes());
        let preceding_message_bytes = track!(Self::message_into_bytes(message.clone()))?;
        let hmac_sha1 = Self::generate_hmac_token(&key.0[..], &preceding_message_bytes);
        Ok(MessageIntegrity {
            hmac_sha1,
            preceding_message_bytes,
        })
    }
''', '''        Self::sign(message, &Self::long_term_key(username, realm, password))
    }

    fn sign<A: Attribute>(message: &Message<A>, key: &[u8]) -> Result<Self> {
        let bytes = track!(Self::message_into_bytes(message.clone()))?;
        Ok(MessageIntegrity {
            hmac_sha1: Self::generate_hmac_token(key, &bytes),
            preceding_message_bytes: bytes,
        })
    }

    fn long_term_key(username: &Username, realm: &Realm, password: &str) -> [u8; 16] {
        let mut text = String::with_capacity(username.name().len() + realm.text().len() + password.len() + 2);
        text.push_str(username.name());
        text.push(':');
        text.push_str(realm.text());
        text += ":";
        text += password;
        md5::compute(text).0
    }

    fn verify(&self, key: &[u8]) -> std::result::Result<(), ErrorCode> {
        let expected = Self::generate_hmac_token(key, &self.preceding_message_bytes);
        let difference = self
            .hmac_sha1
            .iter()
            .zip(expected.iter())
            .fold(0, |acc, (a, b)| acc | (a ^ b));
        match difference {
            0 => Ok(()),
            _ => Err(errors::Unauthorized.into()),
        }
    }
'''),
    (R5389, '''        let key = password.as_bytes();
        let expected = Self::generate_hmac_token(key, &self.preceding_message_bytes);
        if self.hmac_sha1 == expected {
            Ok(())
        } else {
            Err(errors::Unauthorized.into())
        }
''', '''        self.verify(password.as_ref())
'''),
    (R5389, '''        let key =
            md5::compute(format!("{}:{}:{}", username.name(), realm.text(), password).as_bytes());
        let expected = Self::generate_hmac_token(&key.0[..], &self.preceding_message_bytes);
        if self.hmac_sha1 == expected {
            Ok(())
        } else {
            Err(errors::Unauthorized.into())
        }
''', '''        let key = Self::long_term_key(username, realm, password);
        self.verify(&key)
'''),
    (R5389, '''        let adjusted_len = bytes.len() - 20 /*msg header*/+ 4 /*attr header*/ + 20 /*hmac*/;
        track_assert!(adjusted_len < 0x10000, ErrorKind::InvalidInput; adjusted_len);
        BigEndian::write_u16(&mut bytes[2..4], adjusted_len as u16);
        Ok(bytes)
''', '''        let adjusted_len = bytes.len() + 4;
        track_assert!(adjusted_len <= usize::from(u16::MAX), ErrorKind::InvalidInput; adjusted_len);
        bytes[2..4].copy_from_slice(&(adjusted_len as u16).to_be_bytes());
        Ok(bytes)
'''),
    (R5389, "use byteorder::{BigEndian, ByteOrder};\n", ""),
    (R5389, "        track_assert!(value.chars().count() < 128, ErrorKind::InvalidInput; value);\n", "        track_assert!(value.chars().nth(127).is_none(), ErrorKind::InvalidInput; value);\n"),
    (R5389, '''        unknowns: vs.into_iter().map(AttributeType::new).collect()
''', '''        unknowns: vs.iter().map(|&v| AttributeType::from(v)).collect::<Vec<AttributeType>>()
'''),
    (R5389, '''        .unknowns
        .into_iter()
        .map(|ty| ty.as_u16())
        .collect::<Vec<_>>()
        .into_iter()
''', '''        .unknowns()
        .iter()
        .copied()
        .map(AttributeType::as_u16)
        .collect::<Vec<u16>>()
        .into_iter()
'''),
    )
# rfc5766 and the others
ref("r2",
    (R5766, '''        track_assert!(n >= Self::MIN, ErrorKind::InvalidInput; n);
        track_assert!(n <= Self::MAX, ErrorKind::InvalidInput; n);
        Ok(ChannelNumber(n))
''', '''        if n & 0xF000 == 0x4000 {
            Ok(ChannelNumber(n))
        } else {
            track_panic!(ErrorKind::InvalidInput; n)
        }
'''),
    (R5766, '''        if self.0 == Self::MAX {
            Self::min()
        } else {
            ChannelNumber(self.0 + 1)
        }
''', '''        match Self::new(self.0.wrapping_add(1)) {
            Ok(next) => next,
            Err(_) => Self::min(),
        }
'''),
    (R5766, '''    ChannelNumber::new((item >> 16) as u16)
''', '''    ChannelNumber::new(u16::from_be_bytes([item.to_be_bytes()[0], item.to_be_bytes()[1]]))
'''),
    (R5766, '''    |item: Self::Item| u32::from(item.0) << 16
''', '''    |item: Self::Item| item.value() as u32 * 0x1_0000
'''),
    (R5766, '''        let lifetime_seconds = lifetime.as_secs();
        track_assert!(lifetime_seconds <= 0xFFFF_FFFF, ErrorKind::InvalidInput);
        Ok(Lifetime(Duration::from_secs(lifetime_seconds)))
''', '''        use std::convert::TryFrom;
        let lifetime_seconds = u32::try_from(lifetime.as_secs());
        track_assert!(lifetime_seconds.is_ok(), ErrorKind::InvalidInput);
        Ok(Self::from_u32(lifetime_seconds.expect("checked")))
'''),
    (R5766, '''        track_assert!(data.len() <= 0xFFFF, ErrorKind::InvalidInput);
        Ok(Data(data))
''', '''        use std::convert::TryFrom;
        if u16::try_from(data.len()).is_err() {
            track_panic!(ErrorKind::InvalidInput);
        }
        Ok(Data(data))
'''),
    (R5766, '''    (item & 0b1000_0000) != 0
''', '''    item >= 0x80
'''),
    (R5766, '''impl_encode!(EvenPortEncoder, EvenPort, |item: Self::Item| u8::from(
    item.0
) << 7);
''', '''impl_encode!(EvenPortEncoder, EvenPort, |item: Self::Item| if item.0 { 0x80 } else { 0 });
'''),
    (R5766, '''    RequestedTransport((item >> 24) as u8)
''', '''    RequestedTransport::new(item.to_be_bytes()[0])
'''),
    (R5766, '''    |item: Self::Item| u32::from(item.0) << 24
''', '''    |item: Self::Item| u32::from_be_bytes([item.protocol(), 0, 0, 0])
'''),
    (R5780, '''    Ok(ChangeRequest((item & 0x4) != 0, (item & 0x2) != 0))
''', '''    let ip = item & (1 << 2) == 1 << 2;
    let port = (item >> 1) % 2 == 1;
    Ok(ChangeRequest::new(ip, port))
'''),
    (R5780, '''    let ip = item.0 as u8;
    let port = item.1 as u8;
    ((ip << 1 | port) << 1) as u32
''', '''    let mut flags = 0u32;
    if item.ip() {
        flags |= 4;
    }
    if item.port() {
        flags |= 2;
    }
    flags
'''),
    (R8016, '''        track_assert!(data.len() <= 0xFFFF, ErrorKind::InvalidInput);
        Ok(MobilityTicket(data))
''', '''        match data.len() {
            0..=0xFFFF => Ok(MobilityTicket(data)),
            _ => track_panic!(ErrorKind::InvalidInput),
        }
'''),
    (R8656, '''        let [fam, _, _, _] = self.family.finish_decoding()?.to_be_bytes();

        match fam {
            FAMILY_IPV4 => Ok(AddressFamily::V4),
            FAMILY_IPV6 => Ok(AddressFamily::V6),
            family => track_panic!(
                bytecodec::ErrorKind::InvalidInput,
                "Unknown address family: {}",
                family
            ),
        }
''', '''        let fam = (self.family.finish_decoding()? >> 24) as u8;
        let families = [(FAMILY_IPV4, AddressFamily::V4), (FAMILY_IPV6, AddressFamily::V6)];
        match families.iter().find(|(n, _)| *n == fam) {
            Some((_, family)) => Ok(*family),
            None => track_panic!(bytecodec::ErrorKind::InvalidInput, "Unknown address family: {}", fam),
        }
'''),
    (R8656, '''        let bytes = [fam_byte, 0, 0, 0];

        self.family.start_encoding(u32::from_be_bytes(bytes))
''', '''        self.family.start_encoding(u32::from(fam_byte).rotate_right(8))
'''),
    ("src/method.rs", "        track_assert!(codepoint < 0x1000, ErrorKind::InvalidInput; codepoint);\n        Ok(Method(codepoint))\n",
     "        match codepoint {\n            0..=0xFFF => Ok(Method(codepoint)),\n            _ => track_panic!(ErrorKind::InvalidInput; codepoint),\n        }\n"),
    ("src/types.rs", '''        if value < 0x1000 {
            Some(U12(value))
        } else {
            None
        }
''', '''        Some(U12(value)).filter(|v| v.0 <= 0x0FFF)
'''),
    ("src/transaction_id.rs", '''        for b in self.as_ref() {
            write!(f, "{:02X}", b)?;
        }
        write!(f, ")")?;
        Ok(())
''', '''        self.0.iter().try_for_each(|b| write!(f, "{:02X}", b))?;
        write!(f, ")")
'''),
    )
# ---- less usual constructs
ref("z1",
    (N, XOR, '''    let cookie = MAGIC_COOKIE.to_be_bytes();
    let key: [u8; 16] = std::array::from_fn(|i| {
        cookie
            .get(i)
            .copied()
            .unwrap_or_else(|| transaction_id.as_bytes()[i.saturating_sub(4)])
    });
    let port = addr.port() ^ ((MAGIC_COOKIE >> 16) & 0xFFFF) as u16;
    let ip = match addr.ip() {
        IpAddr::V4(ip) => {
            let [a, b, c, d] = ip.octets();
            let [w, x, y, z] = cookie;
            IpAddr::V4(std::net::Ipv4Addr::new(a ^ w, b ^ x, c ^ y, d ^ z))
        }
        IpAddr::V6(ip) => {
            let mut octets = ip.octets();
            for (chunk, mask) in octets.chunks_exact_mut(4).zip(key.chunks_exact(4)) {
                for i in (0..4).rev() {
                    chunk[i] ^= mask[i];
                }
            }
            IpAddr::V6(octets.into())
        }
    };
    SocketAddr::from((ip, port))
'''),
    (M, HOOKS_ENC, '''        let pending: std::collections::VecDeque<_> = item.attributes.drain(..).collect();
        let mut pending = pending;
        while let Some(mut attr) = pending.pop_front() {
            let result = track!(attr.before_encode(&item));
            item.attributes.push(attr);
            result?;
        }
'''),
    (M, HOOKS_DEC, '''        let mut done = Message {
            attributes: Vec::with_capacity(message.attributes.len()),
            class: message.class,
            method: message.method,
            transaction_id: message.transaction_id,
        };
        message.attributes.drain(..).try_for_each(|mut attr| {
            track!(attr.after_decode(&done))?;
            done.attributes.push(attr);
            Ok::<(), Error>(())
        })?;
        message = done;
'''),
    (M, AS_U16, '''        let bits = |value: u16, range: std::ops::Range<u32>| (value >> range.start) & ((1 << (range.end - range.start)) - 1);
        let class = self.class as u16;
        let method = self.method.as_u16();
        let parts = [
            (bits(method, 0..4), 0),
            (bits(class, 0..1), 4),
            (bits(method, 4..7), 5),
            (bits(class, 1..2), 8),
            (bits(method, 7..12), 9),
        ];
        parts.iter().map(|&(v, at)| v << at).sum()
'''),
    (M, FROM_U16, '''        let field = |from: u16, width: u32| (value >> from) & !(!0u16 << width);
        let class = (field(8, 1) << 1) + field(4, 1);
        let class = match MessageClass::from_u8(class as u8) {
            Some(class) => class,
            None => unreachable!(),
        };
        let method = Method(field(9, 5) << 7 | field(5, 3) << 4 | field(0, 4));
        Ok(Type { class, method })
'''),
    (A, "        let len = (4 - value_len % 4) % 4;\n", "        let len = (value_len + 3) / 4 * 4 - value_len;\n"),
    (R5389, '''        let final_len = bytes.len() - 20 + 8; // Adds `Fingerprint` attribute length
        track_assert!(final_len < 0x10000, ErrorKind::InvalidInput; final_len);
        BigEndian::write_u16(&mut bytes[2..4], final_len as u16);
''', '''        let final_len = bytes
            .len()
            .checked_sub(20)
            .and_then(|n| n.checked_add(8))
            .and_then(|n| std::convert::TryInto::<u16>::try_into(n).ok());
        let final_len = track_assert_some!(final_len, ErrorKind::InvalidInput);
        bytes.splice(2..4, final_len.to_be_bytes());
'''),
    (R5389, '''        self.preceding_message_bytes = track!(Self::message_into_bytes(message.clone()))?;
        Ok(())
''', '''        track!(Self::message_into_bytes(message.clone()))
            .map(|bytes| self.preceding_message_bytes.extend(bytes))
'''),
    (R5389, '''    let class = u32::from(item.code / 100);
    let number = u32::from(item.code % 100);
    let value = (class << 8) | number;
    (value, item.reason_phrase)
''', '''    let mut number = u32::from(item.code);
    let mut class = 0u32;
    while number >= 100 {
        number -= 100;
        class += 1;
    }
    (class * 256 + number, item.reason_phrase)
'''),
    )
ref("z2",
    (M, '''    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        if self.last_error.is_none() {
''', '''    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        // No error so far
        if let None = self.last_error {
'''),
    (M, '''    header: Peekable<MessageHeaderDecoder>,
    attributes: Length<AttributesDecoder<A>>,
}
impl<A: Attribute> MessageDecoder<A> {''', '''    header: Box<Peekable<MessageHeaderDecoder>>,
    attributes: Box<Length<AttributesDecoder<A>>>,
}
impl<A: Attribute> MessageDecoder<A> {'''),
    (M, HOOKS_DEC, '''        fn each<A: Attribute>(message: &mut Message<A>, at: usize) -> Result<()> {
            let tail = message.attributes.split_off(at);
            let mut tail = tail.into_iter();
            if let Some(mut attr) = tail.next() {
                let result = track!(attr.after_decode(message));
                message.attributes.push(attr);
                message.attributes.extend(tail);
                result?;
                each(message, at + 1)
            } else {
                Ok(())
            }
        }
        each(&mut message, 0)?;
'''),
    (M, HOOKS_ENC, '''        let count = item.attributes.len();
        (0..count).try_for_each(|i| -> Result<()> {
            let attrs = item.attributes.as_mut_ptr();
            let hooked = unsafe {
                item.attributes.set_len(i);
                (*attrs.add(i)).before_encode(&item)
            };
            unsafe { item.attributes.set_len(count) };
            track!(hooked)
        })?;
'''),
    (M, '''    message_type: U16beEncoder,
    message_len: U16beEncoder,
    magic_cookie: U32beEncoder,
    transaction_id: BytesEncoder<TransactionId>,
    attributes: PreEncode<Repeat<LosslessAttributeEncoder<A>, vec::IntoIter<LosslessAttribute<A>>>>,
}
impl<A: Attribute> MessageEncoder<A> {''', '''    message_type: U16beEncoder,
    message_len: U16beEncoder,
    magic_cookie: U32beEncoder,
    transaction_id: BytesEncoder<[u8; 12]>,
    attributes: PreEncode<Repeat<LosslessAttributeEncoder<A>, vec::IntoIter<LosslessAttribute<A>>>>,
}
impl<A: Attribute> MessageEncoder<A> {'''),
    (M, "self.transaction_id.start_encoding(item.transaction_id)", "self.transaction_id.start_encoding(*item.transaction_id.as_bytes())"),
    (M, "self.attributes.iter().filter_map(|a| a.as_known())", '''{
            let mut inner = self.attributes.iter();
            std::iter::from_fn(move || loop {
                match inner.next()? {
                    LosslessAttribute::Known { inner, .. } => return Some(inner),
                    LosslessAttribute::Unknown { .. } => continue,
                }
            })
        }'''),
    (A, '''#[derive(Default, Clone)]
pub struct Padding {
    buf: [u8; 3],
    len: usize,
}
''', '''#[derive(Default, Clone)]
pub struct Padding {
    buf: Vec<u8>,
}
'''),
    (A, '''        let len = (4 - value_len % 4) % 4;
        Padding { buf: [0; 3], len }
''', '''        Padding {
            buf: vec![0; (4 - value_len % 4) % 4],
        }
'''),
    (A, "        &self.buf[..self.len]\n    }\n}\nimpl AsMut", "        &self.buf\n    }\n}\nimpl AsMut"),
    (A, "        &mut self.buf[..self.len]\n", "        self.buf.as_mut_slice()\n"),
    (N, '''#[derive(Debug)]
enum IpBytes {
    V4([u8; 4]),
    V6([u8; 16]),
}
''', '''#[derive(Debug)]
enum IpBytes {
    V4(Box<[u8; 4]>),
    V6(Box<[u8; 16]>),
}
'''),
    (N, "self.ip.set_bytes(IpBytes::V4([0; 4]))", "self.ip.set_bytes(IpBytes::V4(Box::new([0; 4])))"),
    (N, "self.ip.set_bytes(IpBytes::V6([0; 16]))", "self.ip.set_bytes(IpBytes::V6(Box::new([0; 16])))"),
    (N, '''            IpBytes::V4(b) => IpAddr::V4(b.into()),
            IpBytes::V6(b) => IpAddr::V6(b.into()),
''', '''            IpBytes::V4(b) => IpAddr::V4((*b).into()),
            IpBytes::V6(b) => IpAddr::V6((*b).into()),
'''),
    (N, '''            IpAddr::V4(ip) => IpBytes::V4(ip.octets()),
            IpAddr::V6(ip) => IpBytes::V6(ip.octets()),
''', '''            IpAddr::V4(ip) => IpBytes::V4(Box::new(ip.octets())),
            IpAddr::V6(ip) => IpBytes::V6(Box::new(ip.octets())),
'''),
    (N, '''            IpBytes::V4(bytes) => bytes,
            IpBytes::V6(bytes) => bytes,
        }
    }
}
impl AsMut''', '''            IpBytes::V4(bytes) => &bytes[..],
            IpBytes::V6(bytes) => &bytes[..],
        }
    }
}
impl AsMut'''),
    (N, '''            IpBytes::V4(bytes) => bytes,
            IpBytes::V6(bytes) => bytes,
        }
    }
}

#[cfg(test)]''', '''            IpBytes::V4(bytes) => &mut bytes[..],
            IpBytes::V6(bytes) => &mut bytes[..],
        }
    }
}

#[cfg(test)]'''),
    )
ref("z3",
    (M, '''    inner: Collect<LosslessAttributeDecoder<A>, Vec<LosslessAttribute<A>>>,
    last_error: Option<Error>,
''', '''    inner: LosslessAttributeDecoder<A>,
    items: Vec<LosslessAttribute<A>>,
    started: bool,
    done: bool,
    last_error: Option<Error>,
'''),
    (M, '''            inner: Default::default(),
            last_error: None,
            is_eos: false,
        }
''', '''            inner: Default::default(),
            items: Vec::new(),
            started: false,
            done: false,
            last_error: None,
            is_eos: false,
        }
'''),
    (M, '''impl<A: Attribute> Decode for AttributesDecoder<A> {
    type Item = Vec<LosslessAttribute<A>>;
''', '''impl<A: Attribute> AttributesDecoder<A> {
    fn decode_items(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        let mut offset = 0;
        while offset < buf.len() {
            self.started = true;
            offset += track!(self.inner.decode(&buf[offset..], eos))?;
            if !self.inner.is_idle() {
                break;
            }
            self.items.push(track!(self.inner.finish_decoding())?);
            self.started = false;
        }
        if eos.is_reached() {
            if self.started {
                track!(Err(Error::from(ErrorKind::UnexpectedEos.error())))?;
            }
            self.done = true;
        }
        Ok(offset)
    }
}
impl<A: Attribute> Decode for AttributesDecoder<A> {
    type Item = Vec<LosslessAttribute<A>>;
'''),
    (M, '''            match track!(self.inner.decode(buf, eos)) {
                Err(e) => {
                    self.last_error = Some(e);
                }
                Ok(_) if eos.is_reached() && !self.inner.is_idle() => {
                    // The attributes end in the middle of the last one
                    self.last_error = Some(track!(ErrorKind::UnexpectedEos.error()).into());
                }
                Ok(size) => return Ok(size),
            }
''', '''            match track!(self.decode_items(buf, eos)) {
                Err(e) => {
                    self.last_error = Some(e);
                }
                Ok(size) => return Ok(size),
            }
'''),
    (M, '''        if let Some(e) = self.last_error.take() {
            self.inner = Default::default();
            return Err(track!(e));
        }
        track!(self.inner.finish_decoding())
''', '''        if let Some(e) = self.last_error.take() {
            *self = Default::default();
            return Err(track!(e));
        }
        track_assert!(self.done, ErrorKind::IncompleteDecoding);
        self.done = false;
        Ok(std::mem::take(&mut self.items))
'''),
    (M, '''        if self.last_error.is_none() {
            self.inner.requiring_bytes()
        } else if self.is_eos {
''', '''        if self.last_error.is_none() {
            if self.done {
                ByteCount::Finite(0)
            } else if self.started {
                self.inner.requiring_bytes()
            } else {
                ByteCount::Unknown
            }
        } else if self.is_eos {
'''),
    (M, '''        if self.last_error.is_none() {
            self.inner.is_idle()
        } else {
''', '''        if self.last_error.is_none() {
            self.done
        } else {
'''),
    )
