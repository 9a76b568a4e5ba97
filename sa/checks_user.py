"""Attribute sets that users define: the checks of the predefined sets, for one that combines all attributes."""
import os, shutil, subprocess
from chk import *
import chk, checks_sign
import build as builder

NAME = "verif::Attribute"
CFG = "stun_codec_verif"

# The checks whose obligations are about sets; what is found wrong in them without regard to the set is theirs to report.
QUICK = ["C01", "C02", "C03", "C04", "C06", "C07", "C08", "C09", "C10", "C12", "C14", "C15", "C17", "C20", "C25", "C26", "C33", "C36", "C37"]
DEEP = QUICK + ["C18", "C19", "C21", "C22", "C23", "C24", "C30", "C32"]


class OneSet:
    """The checks see the one set only."""

    def __enter__(self):
        self.old = list(chk.SET_NAMES), {m: getattr(m, "SIGNED") for m in MODULES}
        chk.SET_NAMES[:] = [NAME]
        for m in MODULES:
            m.SIGNED = NAME

    def __exit__(self, *_):
        chk.SET_NAMES[:] = self.old[0]
        for m, v in self.old[1].items():
            m.SIGNED = v


MODULES = [checks_sign]


def inside(f, p):
    def g(R):
        n = len(R.obs)
        with OneSet():
            f(R)
        R.obs[n:] = [(("%s %s" % (p, o[0])),) + tuple(o[1:]) for o in R.obs[n:]]
    return g


def rows(L, tier):
    import checks_faults, checks_panic
    for m in (checks_faults, checks_panic):
        if m not in MODULES:
            MODULES.append(m)
    deep = tier != "quick"
    for p in DEEP if deep else QUICK:
        old = {k for k, _ in CHECKS[p].f(L, "quick")} | ({k for k, _ in CHECKS[p].f(L, tier)} if deep else set())
        with OneSet():
            for k, f in CHECKS[p].f(L, tier):
                if k not in old and (deep or "half" not in k):
                    yield p, k, inside(f, p)


WITNESS = r'''
//! Programs of users: what is public and how it fits together.

pub mod one {
    use stun_codec::define_attribute_enums;
    use stun_codec::rfc5389::attributes::*;
    define_attribute_enums!(Only, OnlyDecoder, OnlyEncoder, [Software]);
}

pub mod turn {
    use stun_codec::define_attribute_enums;
    use stun_codec::rfc5389::attributes::*;
    use stun_codec::rfc5766::attributes::*;
    define_attribute_enums!(
        Attribute,
        AttributeDecoder,
        AttributeEncoder,
        [
            MappedAddress, Username, MessageIntegrity, ErrorCode,
            UnknownAttributes, Realm, Nonce, XorMappedAddress,
            Software, AlternateServer, Fingerprint,
            ChannelNumber, Lifetime, XorPeerAddress, Data,
            XorRelayAddress, EvenPort, RequestedTransport,
            DontFragment, ReservationToken
        ]
    );
}

pub mod all {
    use stun_codec::define_attribute_enums;
    use stun_codec::rfc5245::attributes::*;
    use stun_codec::rfc5389::attributes::*;
    use stun_codec::rfc5766::attributes::*;
    use stun_codec::rfc5780::attributes::*;
    use stun_codec::rfc8016::attributes::*;
    use stun_codec::rfc8656::attributes::*;
    define_attribute_enums!(
        Everything,
        EverythingDecoder,
        EverythingEncoder,
        [
            MappedAddress, Username, MessageIntegrity, ErrorCode, UnknownAttributes, Realm, Nonce, XorMappedAddress,
            XorMappedAddress2, Software, AlternateServer, Fingerprint, ChannelNumber, Lifetime, XorPeerAddress, Data,
            XorRelayAddress, EvenPort, RequestedTransport, DontFragment, ReservationToken, Priority, UseCandidate,
            IceControlled, IceControlling, ChangeRequest, ResponseOrigin, OtherAddress, ResponsePort, MobilityTicket,
            RequestedAddressFamily, AdditionalAddressFamily
        ]
    );
    pub fn members() {
        use crate::usable;
        usable::<Everything, MappedAddress>();
        usable::<Everything, Username>();
        usable::<Everything, MessageIntegrity>();
        usable::<Everything, ErrorCode>();
        usable::<Everything, UnknownAttributes>();
        usable::<Everything, Realm>();
        usable::<Everything, Nonce>();
        usable::<Everything, XorMappedAddress>();
        usable::<Everything, XorMappedAddress2>();
        usable::<Everything, Software>();
        usable::<Everything, AlternateServer>();
        usable::<Everything, Fingerprint>();
        usable::<Everything, ChannelNumber>();
        usable::<Everything, Lifetime>();
        usable::<Everything, XorPeerAddress>();
        usable::<Everything, Data>();
        usable::<Everything, XorRelayAddress>();
        usable::<Everything, EvenPort>();
        usable::<Everything, RequestedTransport>();
        usable::<Everything, DontFragment>();
        usable::<Everything, ReservationToken>();
        usable::<Everything, Priority>();
        usable::<Everything, UseCandidate>();
        usable::<Everything, IceControlled>();
        usable::<Everything, IceControlling>();
        usable::<Everything, ChangeRequest>();
        usable::<Everything, ResponseOrigin>();
        usable::<Everything, OtherAddress>();
        usable::<Everything, ResponsePort>();
        usable::<Everything, MobilityTicket>();
        usable::<Everything, RequestedAddressFamily>();
        usable::<Everything, AdditionalAddressFamily>();
    }
}

use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, SizedEncode, TryTaggedDecode};
use std::fmt::Debug;
use std::hash::Hash;
use stun_codec::convert::TryAsRef;
use stun_codec::{Attribute, Message, MessageClass, MessageDecoder, MessageEncoder, Method, TransactionId};

pub fn threads<T: Send + Sync + 'static>() {}

/// `T` is a member of the set `A`.
pub fn usable<A, T>()
where
    A: Attribute + From<T> + TryAsRef<T> + Debug + Clone + PartialEq + Eq + Hash + Send + Sync + 'static,
    A::Decoder: Default + Decode<Item = A> + TryTaggedDecode + Send + Sync,
    A::Encoder: Default + Encode<Item = A> + SizedEncode + Send + Sync,
    T: Attribute + Debug + Clone + PartialEq + Eq + Hash + Send + Sync + 'static,
{
    threads::<Message<A>>();
    threads::<MessageDecoder<A>>();
    threads::<MessageEncoder<A>>();
    let _ = |mut m: Message<A>, a: T, c: MessageClass, k: Method, t: TransactionId| -> bytecodec::Result<Vec<u8>> {
        m.add_attribute(a.clone());
        let n = Message::<A>::new(c, k, t);
        assert!(m.get_attribute::<T>() == Some(&a));
        assert!(m.attributes().eq(n.attributes()));
        let _ = m.unknown_attributes().map(|x| (x.get_type(), x.value().to_vec())).collect::<Vec<_>>();
        println!("{:?} {} {} {:?}", m.class(), m.method(), m.class(), m.transaction_id());
        let bytes = MessageEncoder::new().encode_into_bytes(m.clone())?;
        let d = MessageDecoder::<A>::new().decode_from_bytes(&bytes)?;
        let d = d.map_err(bytecodec::Error::from)?;
        let mut e = MessageEncoder::<A>::default();
        e.start_encoding(d)?;
        let _: ByteCount = e.requiring_bytes();
        let _: u64 = e.exact_requiring_bytes();
        let mut buf = [0; 9];
        let _ = e.encode(&mut buf, Eos::new(false))?;
        Ok(bytes)
    };
}

pub fn sets() {
    usable::<one::Only, stun_codec::rfc5389::attributes::Software>();
    usable::<turn::Attribute, stun_codec::rfc5389::attributes::Fingerprint>();
    usable::<turn::Attribute, stun_codec::rfc5766::attributes::Data>();
    usable::<stun_codec::rfc5389::Attribute, stun_codec::rfc5389::attributes::Fingerprint>();
    usable::<stun_codec::rfc5766::Attribute, stun_codec::rfc5766::attributes::Data>();
    usable::<stun_codec::rfc5245::Attribute, stun_codec::rfc5245::attributes::Priority>();
    usable::<stun_codec::rfc5780::Attribute, stun_codec::rfc5780::attributes::ChangeRequest>();
    let _ = (one::OnlyDecoder::new(), one::OnlyEncoder::new());
    let _ = (turn::AttributeDecoder::new(), turn::AttributeEncoder::new());
    let _ = (all::EverythingDecoder::new(), all::EverythingEncoder::new());
}
'''

TOML = '''[package]
name = "users"
version = "0.0.0"
edition = "2021"

[lib]
path = "lib.rs"

[dependencies]
bytecodec = "0.4"
stun_codec = { path = %s }

[workspace]
'''


def compiles(R, L):
    """A crate that uses the macro and the interface like programs do compiles against /repo."""
    import json
    d = os.path.join(builder.CACHE, "users")
    with builder.lock():
        os.makedirs(d, exist_ok=True)
        for n, t in (("Cargo.toml", TOML % json.dumps(builder.REPO)), ("lib.rs", WITNESS)):
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        e = builder.env(CARGO_INCREMENTAL="0", RUSTFLAGS="--cap-lints warn")
        p = subprocess.run(["cargo", "check", "--offline", "--message-format", "short", "--manifest-path", os.path.join(d, "Cargo.toml"),
                            "--target-dir", os.path.join(builder.CACHE, "target_users")], env=e, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode == 0:
        R.good("programs of users compile")
        return
    errs = [l for l in p.stdout.splitlines() if ": error" in l and l.split(":")[0].endswith(".rs")]
    if not errs:
        R.unknown("programs of users compile", "cargo gave no verdict: " + p.stdout[-400:])
        return
    R.bad("programs of users compile", "a program that uses the public macro and interface does not compile: " + "; ".join(errs[:5]))


@check("C35", ["a set made with the public macro from all 32 attribute types, in mixed order: the obligations that %s have for the predefined sets" % ", ".join(QUICK),
               "compile witness (cargo check of a crate outside /repo): a crate that uses the macro three times and the public interface with every member compiles against the current tree"],
       assumptions=["Sets over attributes with codecs of their own are represented by the one that combines all attributes of the crate: the macro treats members alike."],
       floor=300)
def c35(L, tier):
    out = [("programs of users compile", lambda R: compiles(R, L))]
    for p, k, f in rows(L, tier):
        out.append(("%s %s" % (p, k), f))
    return out


CHECKS["C35"].cfg = CFG
