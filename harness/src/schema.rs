//! Reference description of every wire type and message, a reference encoder and decoder
//! written from the specification, and adapters to the implementation under test.
use crate::engine::*;
use std::convert::TryFrom;
use std::io::Write;
use std::sync::OnceLock;
use stratumv2::codec::{frame, unframe, ByteParser, Deserializable, Frameable, Message, Serializable};
use stratumv2::common::{self, ChannelEndpointChanged, Protocol, SetupConnectionErrorCode};
use stratumv2::error::Error;
use stratumv2::mining::{self, OpenMiningChannelErrorCode};
use stratumv2::noise::{Signature, SignatureNoiseMessage};
use stratumv2::types::*;
use stratumv2::job_negotiation as jn;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Bool,
    U8,
    U16,
    U32,
    F32,
    U24,
    U256,
    Str(usize),
    Bytes(usize, usize),
    Flags(u32),
    Code(&'static [&'static str]),
    Sig,
    Tag,
    Const(u8),
    Header,
}
/// N: integers, float bits, flag bits, code index, tag, message type code. B: text and bytes.
#[derive(Clone, Debug, PartialEq, Hash)]
pub enum V {
    N(u64),
    B(Vec<u8>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum E {
    Parse,
    Utf8,
    Requirement,
    Version,
    Flags,
    Code,
    MsgType,
    ChanBit,
    Tag,
    Unimplemented,
    Signature,
    Io,
    UnexpectedType,
    Noise,
    Base58,
    Other,
}
pub fn kind(e: &Error) -> E {
    match e {
        Error::ParseError(_) => E::Parse,
        Error::FromUtf8Error(_) | Error::Utf8Error(_) => E::Utf8,
        Error::RequirementError(_) => E::Requirement,
        Error::VersionError(_) => E::Version,
        Error::UnknownFlags() => E::Flags,
        Error::UnknownErrorCode() => E::Code,
        Error::UnknownMessageType() => E::MsgType,
        Error::UnexpectedChannelBit(_) => E::ChanBit,
        Error::DeserializationError(_) => E::Tag,
        Error::Unimplemented() => E::Unimplemented,
        Error::AuthorityKeyError(_) => E::Signature,
        Error::IOError(_) => E::Io,
        Error::UnexpectedMessageType(..) => E::UnexpectedType,
        Error::NoiseError(_) => E::Noise,
        Error::Base58Error(_) => E::Base58,
        _ => E::Other,
    }
}

/// (type code, channel bit) of every registered message; the extension number is 0.
pub const TABLE: &[(u8, bool, &str)] = &[
    (0x00, false, "SetupConnection"),
    (0x01, false, "SetupConnectionSuccess"),
    (0x02, false, "SetupConnectionError"),
    (0x03, true, "ChannelEndpointChanged"),
    (0x10, false, "OpenStandardMiningChannel"),
    (0x11, false, "OpenStandardMiningChannelSuccess"),
    (0x12, false, "OpenStandardMiningChannelError"),
    (0x13, false, "OpenExtendedMiningChannel"),
    (0x14, false, "OpenExtendedMiningChannelSuccess"),
    (0x15, false, "OpenExtendedMiningChannelError"),
    (0x16, true, "UpdateChannel"),
    (0x17, true, "UpdateChannelError"),
    (0x18, true, "CloseChannel"),
    (0x19, true, "SetExtranoncePrefix"),
    (0x1a, true, "SubmitSharesStandard"),
    (0x1b, true, "SubmitSharesExtended"),
    (0x1c, true, "SubmitSharesSuccess"),
    (0x1d, true, "SubmitSharesError"),
    (0x1e, true, "NewMiningJob"),
    (0x1f, true, "NewExtendedMiningJob"),
    (0x20, true, "SetNewPrevHash"),
    (0x21, true, "SetTarget"),
    (0x22, false, "SetCustomMiningJob"),
    (0x23, false, "SetCustomMiningJobSuccess"),
    (0x24, false, "SetCustomMiningJobError"),
    (0x25, false, "Reconnect"),
    (0x26, false, "SetGroupChannel"),
    (0xfe, false, "TestMessage1"),
    (0xff, true, "TestMessage2"),
];
pub fn table_bit(code: u8) -> Option<bool> {
    TABLE.iter().find(|t| t.0 == code).map(|t| t.1)
}
pub fn mt(name: &str) -> MessageType {
    use MessageType::*;
    match name {
        "SetupConnection" => SetupConnection,
        "SetupConnectionSuccess" => SetupConnectionSuccess,
        "SetupConnectionError" => SetupConnectionError,
        "ChannelEndpointChanged" => ChannelEndpointChanged,
        "OpenStandardMiningChannel" => OpenStandardMiningChannel,
        "OpenStandardMiningChannelSuccess" => OpenStandardMiningChannelSuccess,
        "OpenStandardMiningChannelError" => OpenStandardMiningChannelError,
        "OpenExtendedMiningChannel" => OpenExtendedMiningChannel,
        "OpenExtendedMiningChannelSuccess" => OpenExtendedMiningChannelSuccess,
        "OpenExtendedMiningChannelError" => OpenExtendedMiningChannelError,
        "UpdateChannel" => UpdateChannel,
        "UpdateChannelError" => UpdateChannelError,
        "CloseChannel" => CloseChannel,
        "SetExtranoncePrefix" => SetExtranoncePrefix,
        "SubmitSharesStandard" => SubmitSharesStandard,
        "SubmitSharesExtended" => SubmitSharesExtended,
        "SubmitSharesSuccess" => SubmitSharesSuccess,
        "SubmitSharesError" => SubmitSharesError,
        "NewMiningJob" => NewMiningJob,
        "NewExtendedMiningJob" => NewExtendedMiningJob,
        "SetNewPrevHash" => SetNewPrevHash,
        "SetTarget" => SetTarget,
        "SetCustomMiningJob" => SetCustomMiningJob,
        "SetCustomMiningJobSuccess" => SetCustomMiningJobSuccess,
        "SetCustomMiningJobError" => SetCustomMiningJobError,
        "Reconnect" => Reconnect,
        "SetGroupChannel" => SetGroupChannel,
        "TestMessage1" => TestMessage1,
        "TestMessage2" => TestMessage2,
        _ => panic!("harness: unknown kind {}", name),
    }
}
/// Name of a kind as the reference table spells it, from the enum value alone.
pub fn mt_by_code(code: u8) -> MessageType {
    mt(TABLE.iter().find(|t| t.0 == code).expect("harness: code").2)
}
pub fn code_of(m: &MessageType) -> Option<u8> {
    TABLE.iter().find(|t| mt(t.2) == *m).map(|t| t.0)
}

pub const SC_CODES: &[&str] = &["unsupported-feature-flags", "unsupported-protocol", "protocol-version-mismatch"];
pub const OC_CODES: &[&str] = &["unknown-user", "max-target-out-of-range"];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rule {
    None,
    /// offset of the first field of a SetupConnection
    Setup(usize),
    SetupErr,
}

pub trait Obj {
    fn ser(&self, w: &mut dyn Write) -> Result<usize, Error>;
    fn vals(&self) -> Vec<V>;
    /// (stored length, data length) of every bounded field
    fn lens(&self) -> Vec<(u64, u64)>;
    fn frame(&self) -> Option<Result<Message, Error>>;
    /// implementation's own equality, if it has one
    fn same(&self, other: &dyn Obj) -> Option<bool>;
    fn any(&self) -> &dyn std::any::Any;
    /// implementation's own clone, if it has one
    fn dup(&self) -> Option<Box<dyn Obj>>;
    fn to_vec(&self) -> Result<Vec<u8>, Error>;
}
pub type BuildFn = fn(&[V]) -> Result<Box<dyn Obj>, Error>;
pub type DecodeFn = fn(&mut ByteParser) -> Result<Box<dyn Obj>, Error>;
pub struct Subject {
    pub name: &'static str,
    pub fields: Vec<K>,
    pub rule: Rule,
    pub build: BuildFn,
    pub decode: DecodeFn,
    /// codec::deserialize on the whole slice
    pub decode_slice: fn(&[u8]) -> Result<Box<dyn Obj>, Error>,
    /// registered type code, for messages that can be framed
    pub code: Option<u8>,
    pub unframe: Option<fn(&Message) -> Result<Box<dyn Obj>, Error>>,
    pub own_type: Option<fn() -> MessageType>,
    /// the two-variant connection request: alternatives chosen by the first byte
    pub union: bool,
}
impl Subject {
    pub fn is_message(&self) -> bool {
        self.code.is_some()
    }
}

pub trait ToV {
    fn v(&self) -> V;
    fn l(&self) -> Option<(u64, u64)> {
        None
    }
}
macro_rules! num_v { ($($t:ty),*) => { $(impl ToV for $t { fn v(&self) -> V { V::N(*self as u64) } })* } }
num_v!(bool, u8, u16, u32);
impl ToV for f32 {
    fn v(&self) -> V {
        V::N(self.to_bits() as u64)
    }
}
impl ToV for U24 {
    fn v(&self) -> V {
        V::N(self.0 as u64)
    }
}
impl ToV for U256 {
    fn v(&self) -> V {
        V::B(self.0.to_vec())
    }
}
macro_rules! str_v { ($($t:ty),*) => { $(impl ToV for $t {
    fn v(&self) -> V { V::B(self.data.as_bytes().to_vec()) }
    fn l(&self) -> Option<(u64, u64)> { Some((self.length as u64, self.data.len() as u64)) }
})* } }
str_v!(STR0_32, STR0_255);
macro_rules! b_v { ($($t:ty),*) => { $(impl ToV for $t {
    fn v(&self) -> V { V::B(self.data.clone()) }
    fn l(&self) -> Option<(u64, u64)> { Some((usize::from(self.length.clone()) as u64, self.data.len() as u64)) }
})* } }
b_v!(B0_31, B0_32, B0_255, B0_64K, B0_16M);
macro_rules! flag_v { ($($t:ty),*) => { $(impl ToV for $t { fn v(&self) -> V { V::N(self.bits() as u64) } })* } }
flag_v!(mining::SetupConnectionFlags, mining::SetupConnectionSuccessFlags, jn::SetupConnectionFlags, jn::SetupConnectionSuccessFlags);
impl ToV for SetupConnectionErrorCode {
    fn v(&self) -> V {
        V::N(match self {
            SetupConnectionErrorCode::UnsupportedFeatureFlags => 0,
            SetupConnectionErrorCode::UnsupportedProtocol => 1,
            SetupConnectionErrorCode::ProtocolVersionMismatch => 2,
        })
    }
}
impl ToV for OpenMiningChannelErrorCode {
    fn v(&self) -> V {
        V::N(match self {
            OpenMiningChannelErrorCode::UnknownUser => 0,
            OpenMiningChannelErrorCode::MaxTargetOutOfRange => 1,
        })
    }
}
pub fn sc_code(i: u64) -> SetupConnectionErrorCode {
    match i {
        0 => SetupConnectionErrorCode::UnsupportedFeatureFlags,
        1 => SetupConnectionErrorCode::UnsupportedProtocol,
        _ => SetupConnectionErrorCode::ProtocolVersionMismatch,
    }
}
pub fn oc_code(i: u64) -> OpenMiningChannelErrorCode {
    match i {
        0 => OpenMiningChannelErrorCode::UnknownUser,
        _ => OpenMiningChannelErrorCode::MaxTargetOutOfRange,
    }
}
impl ToV for Protocol {
    fn v(&self) -> V {
        V::N(match self {
            Protocol::Mining => 0,
            Protocol::JobNegotiation => 1,
            Protocol::TemplateDistribution => 2,
            Protocol::JobDistribution => 3,
        })
    }
}
pub fn protocol(i: u64) -> Protocol {
    [Protocol::Mining, Protocol::JobNegotiation, Protocol::TemplateDistribution, Protocol::JobDistribution][i as usize % 4]
}
impl ToV for Signature {
    fn v(&self) -> V {
        V::B(self.to_bytes().to_vec())
    }
}

// wrapper giving every implementation type the Obj interface
struct W<T>(T);
macro_rules! ser_obj {
    () => {
        fn ser(&self, mut w: &mut dyn Write) -> Result<usize, Error> {
            self.0.serialize(&mut w)
        }
        fn any(&self) -> &dyn std::any::Any {
            self
        }
        fn to_vec(&self) -> Result<Vec<u8>, Error> {
            stratumv2::codec::serialize(&self.0)
        }
    };
}
macro_rules! obj_scalar {
    ($($t:ty),*) => { $(impl Obj for W<$t> {
        ser_obj!();
        fn vals(&self) -> Vec<V> { vec![self.0.v()] }
        fn lens(&self) -> Vec<(u64, u64)> { self.0.l().into_iter().collect() }
        fn frame(&self) -> Option<Result<Message, Error>> { None }
        fn same(&self, o: &dyn Obj) -> Option<bool> { o.any().downcast_ref::<Self>().map(|o| self.0 == o.0) }
        fn dup(&self) -> Option<Box<dyn Obj>> { Some(Box::new(W(self.0.clone()))) }
    })* };
}
obj_scalar!(
    bool, u8, u16, u32, f32, U24, U256, STR0_32, STR0_255, B0_31, B0_32, B0_255, B0_64K, B0_16M, mining::SetupConnectionFlags,
    mining::SetupConnectionSuccessFlags, jn::SetupConnectionFlags, jn::SetupConnectionSuccessFlags, SetupConnectionErrorCode,
    OpenMiningChannelErrorCode, Protocol, Signature
);
macro_rules! obj_msg {
    ($t:ty, $($f:ident),*) => { impl Obj for W<$t> {
        ser_obj!();
        fn vals(&self) -> Vec<V> { vec![$(self.0.$f.v()),*] }
        fn lens(&self) -> Vec<(u64, u64)> { vec![$(self.0.$f.l()),*].into_iter().flatten().collect() }
        fn frame(&self) -> Option<Result<Message, Error>> { Some(frame(&self.0)) }
        fn same(&self, o: &dyn Obj) -> Option<bool> { o.any().downcast_ref::<Self>().map(|o| self.0 == o.0) }
        fn dup(&self) -> Option<Box<dyn Obj>> { Some(Box::new(W(self.0.clone()))) }
    } };
}
macro_rules! obj_setup { ($($t:ty),*) => { $(obj_msg!($t, min_version, max_version, flags, endpoint_host, endpoint_port, vendor, hardware_version, firmware, device_id);)* } }
obj_setup!(mining::SetupConnection, jn::SetupConnection);
obj_msg!(mining::SetupConnectionSuccess, used_version, flags);
obj_msg!(jn::SetupConnectionSuccess, used_version, flags);
obj_msg!(mining::SetupConnectionError, flags, error_code);
obj_msg!(jn::SetupConnectionError, flags, error_code);
obj_msg!(mining::OpenStandardMiningChannel, request_id, user_identity, nominal_hash_rate, max_target);
obj_msg!(mining::OpenStandardMiningChannelSuccess, request_id, channel_id, target, extranonce_prefix, group_channel_id);
obj_msg!(mining::OpenStandardMiningChannelError, request_id, error_code);
obj_msg!(mining::OpenExtendedMiningChannel, request_id, user_identity, nominal_hash_rate, max_target, min_extranonce_size);
obj_msg!(mining::OpenExtendedMiningChannelSuccess, request_id, channel_id, target, extranonce_size, extranonce_prefix);
obj_msg!(mining::OpenExtendedMiningChannelError, request_id, error_code);
obj_msg!(mining::UpdateChannel, channel_id, nominal_hash_rate, max_target);
obj_msg!(ChannelEndpointChanged, channel_id);

impl Obj for W<common::SetupConnection> {
    ser_obj!();
    fn vals(&self) -> Vec<V> {
        let (t, mut v) = match &self.0 {
            common::SetupConnection::Mining(m) => (0, W(m.clone()).vals()),
            common::SetupConnection::JobNegotiation(m) => (1, W(m.clone()).vals()),
        };
        v.insert(0, V::N(t));
        v
    }
    fn lens(&self) -> Vec<(u64, u64)> {
        match &self.0 {
            common::SetupConnection::Mining(m) => W(m.clone()).lens(),
            common::SetupConnection::JobNegotiation(m) => W(m.clone()).lens(),
        }
    }
    fn frame(&self) -> Option<Result<Message, Error>> {
        Some(frame(&self.0))
    }
    fn same(&self, _: &dyn Obj) -> Option<bool> {
        None
    }
    fn dup(&self) -> Option<Box<dyn Obj>> {
        None
    }
}
impl Obj for W<SignatureNoiseMessage> {
    ser_obj!();
    fn vals(&self) -> Vec<V> {
        vec![self.0.version.v(), self.0.valid_from.v(), self.0.not_valid_after.v(), self.0.signature.v()]
    }
    fn lens(&self) -> Vec<(u64, u64)> {
        vec![]
    }
    fn frame(&self) -> Option<Result<Message, Error>> {
        None
    }
    fn same(&self, o: &dyn Obj) -> Option<bool> {
        o.any().downcast_ref::<Self>().map(|o| self.0 == o.0)
    }
    fn dup(&self) -> Option<Box<dyn Obj>> {
        Some(Box::new(W(self.0.clone())))
    }
}
impl Obj for W<Message> {
    ser_obj!();
    fn vals(&self) -> Vec<V> {
        vec![V::N(code_of(&self.0.message_type).map(|c| c as u64).unwrap_or(9999)), V::B(self.0.payload.clone())]
    }
    fn lens(&self) -> Vec<(u64, u64)> {
        vec![]
    }
    fn frame(&self) -> Option<Result<Message, Error>> {
        None
    }
    fn same(&self, o: &dyn Obj) -> Option<bool> {
        o.any().downcast_ref::<Self>().map(|o| self.0 == o.0)
    }
    fn dup(&self) -> Option<Box<dyn Obj>> {
        Some(Box::new(W(self.0.clone())))
    }
}
pub fn obj_of_message(m: Message) -> Box<dyn Obj> {
    Box::new(W(m))
}

pub fn n(v: &V) -> u64 {
    match v {
        V::N(x) => *x,
        _ => panic!("harness: number expected"),
    }
}
pub fn b(v: &V) -> Vec<u8> {
    match v {
        V::B(x) => x.clone(),
        _ => panic!("harness: bytes expected"),
    }
}
pub fn st(v: &V) -> String {
    String::from_utf8(b(v)).expect("harness: text")
}
fn a32(v: &V) -> [u8; 32] {
    let mut a = [0u8; 32];
    a.copy_from_slice(&b(v));
    a
}
fn f(v: &V) -> f32 {
    f32::from_bits(n(v) as u32)
}

fn bx<T: 'static>(r: Result<T, Error>) -> Result<Box<dyn Obj>, Error>
where
    W<T>: Obj,
{
    r.map(|x| Box::new(W(x)) as Box<dyn Obj>)
}
fn dec<T: Deserializable + 'static>(p: &mut ByteParser) -> Result<Box<dyn Obj>, Error>
where
    W<T>: Obj,
{
    bx(T::deserialize(p))
}
fn decs<T: Deserializable + 'static>(x: &[u8]) -> Result<Box<dyn Obj>, Error>
where
    W<T>: Obj,
{
    bx(stratumv2::codec::deserialize::<T>(x))
}
fn unf<T: Frameable + 'static>(m: &Message) -> Result<Box<dyn Obj>, Error>
where
    W<T>: Obj,
{
    bx(unframe::<T>(m))
}

fn plain<T: Deserializable + 'static>(name: &'static str, fields: Vec<K>, build: BuildFn) -> Subject
where
    W<T>: Obj,
{
    Subject { name, fields, rule: Rule::None, build, decode: dec::<T>, decode_slice: decs::<T>, code: None, unframe: None, own_type: None, union: false }
}
fn msg<T: Frameable + 'static>(name: &'static str, code: u8, fields: Vec<K>, rule: Rule, build: BuildFn) -> Subject
where
    W<T>: Obj,
{
    Subject {
        name,
        fields,
        rule,
        build,
        decode: dec::<T>,
        decode_slice: decs::<T>,
        code: Some(code),
        unframe: Some(unf::<T>),
        own_type: Some(T::message_type),
        union: false,
    }
}

pub fn flags<T>(x: Option<T>) -> T {
    x.expect("harness: the implementation rejects a registered flag set")
}

fn setup_fields(mask: u32) -> Vec<K> {
    vec![K::U16, K::U16, K::Flags(mask), K::Str(255), K::U16, K::Str(255), K::Str(255), K::Str(255), K::Str(255)]
}
fn tagged(tag: u8, mask: u32) -> Vec<K> {
    let mut v = vec![K::Const(tag)];
    v.extend(setup_fields(mask));
    v
}

pub fn subjects() -> &'static [Subject] {
    static S: OnceLock<Vec<Subject>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![
            plain::<bool>("bool", vec![K::Bool], |v| bx(Ok(n(&v[0]) == 1))),
            plain::<u8>("u8", vec![K::U8], |v| bx(Ok(n(&v[0]) as u8))),
            plain::<u16>("u16", vec![K::U16], |v| bx(Ok(n(&v[0]) as u16))),
            plain::<u32>("u32", vec![K::U32], |v| bx(Ok(n(&v[0]) as u32))),
            plain::<f32>("f32", vec![K::F32], |v| bx(Ok(f(&v[0])))),
            plain::<U24>("U24", vec![K::U24], |v| bx(U24::new(n(&v[0]) as u32))),
            plain::<U256>("U256", vec![K::U256], |v| bx(Ok(U256::from(a32(&v[0]))))),
            plain::<STR0_32>("STR0_32", vec![K::Str(32)], |v| bx(STR0_32::new(st(&v[0])))),
            plain::<STR0_255>("STR0_255", vec![K::Str(255)], |v| bx(STR0_255::new(st(&v[0])))),
            plain::<B0_31>("B0_31", vec![K::Bytes(1, 31)], |v| bx(B0_31::new(b(&v[0])))),
            plain::<B0_32>("B0_32", vec![K::Bytes(1, 32)], |v| bx(B0_32::new(b(&v[0])))),
            plain::<B0_255>("B0_255", vec![K::Bytes(1, 255)], |v| bx(B0_255::new(b(&v[0])))),
            plain::<B0_64K>("B0_64K", vec![K::Bytes(2, 65535)], |v| bx(B0_64K::new(b(&v[0])))),
            plain::<B0_16M>("B0_16M", vec![K::Bytes(3, (1 << 24) - 1)], |v| bx(B0_16M::new(b(&v[0])))),
            plain::<mining::SetupConnectionFlags>("mining::SetupConnectionFlags", vec![K::Flags(7)], |v| {
                bx(Ok(flags(mining::SetupConnectionFlags::from_bits(n(&v[0]) as u32))))
            }),
            plain::<mining::SetupConnectionSuccessFlags>("mining::SetupConnectionSuccessFlags", vec![K::Flags(3)], |v| {
                bx(Ok(flags(mining::SetupConnectionSuccessFlags::from_bits(n(&v[0]) as u32))))
            }),
            plain::<jn::SetupConnectionFlags>("job_negotiation::SetupConnectionFlags", vec![K::Flags(1)], |v| {
                bx(Ok(flags(jn::SetupConnectionFlags::from_bits(n(&v[0]) as u32))))
            }),
            plain::<jn::SetupConnectionSuccessFlags>("job_negotiation::SetupConnectionSuccessFlags", vec![K::Flags(0)], |v| {
                bx(Ok(flags(jn::SetupConnectionSuccessFlags::from_bits(n(&v[0]) as u32))))
            }),
            plain::<SetupConnectionErrorCode>("SetupConnectionErrorCode", vec![K::Code(SC_CODES)], |v| bx(Ok(sc_code(n(&v[0]))))),
            plain::<OpenMiningChannelErrorCode>("OpenMiningChannelErrorCode", vec![K::Code(OC_CODES)], |v| bx(Ok(oc_code(n(&v[0]))))),
            plain::<Protocol>("Protocol", vec![K::Tag], |v| bx(Ok(protocol(n(&v[0]))))),
            plain::<Signature>("Signature", vec![K::Sig], |v| bx(Signature::try_from(&b(&v[0])[..]).map_err(Error::from))),
            plain::<SignatureNoiseMessage>("SignatureNoiseMessage", vec![K::U16, K::U32, K::U32, K::Sig], |v| {
                Ok(Box::new(W(SignatureNoiseMessage {
                    version: n(&v[0]) as u16,
                    valid_from: n(&v[1]) as u32,
                    not_valid_after: n(&v[2]) as u32,
                    signature: Signature::try_from(&b(&v[3])[..]).map_err(Error::from)?,
                })))
            }),
            plain::<Message>("Message", vec![K::Header, K::Bytes(3, (1 << 24) - 1)], |v| {
                bx(Ok(Message::new(mt_by_code(n(&v[0]) as u8), b(&v[1]))))
            }),
            msg::<mining::SetupConnection>("mining::SetupConnection", 0x00, setup_fields(7), Rule::Setup(0), |v| {
                bx(mining::SetupConnection::new(
                    n(&v[0]) as u16,
                    n(&v[1]) as u16,
                    flags(mining::SetupConnectionFlags::from_bits(n(&v[2]) as u32)),
                    st(&v[3]),
                    n(&v[4]) as u16,
                    st(&v[5]),
                    st(&v[6]),
                    st(&v[7]),
                    st(&v[8]),
                ))
            }),
            msg::<jn::SetupConnection>("job_negotiation::SetupConnection", 0x00, setup_fields(1), Rule::Setup(0), |v| {
                bx(jn::SetupConnection::new(
                    n(&v[0]) as u16,
                    n(&v[1]) as u16,
                    flags(jn::SetupConnectionFlags::from_bits(n(&v[2]) as u32)),
                    st(&v[3]),
                    n(&v[4]) as u16,
                    st(&v[5]),
                    st(&v[6]),
                    st(&v[7]),
                    st(&v[8]),
                ))
            }),
            msg::<common::SetupConnection>("common::SetupConnection(mining)", 0x00, tagged(0, 7), Rule::Setup(1), |v| {
                bx(common::SetupConnection::new_mining(
                    n(&v[1]) as u16,
                    n(&v[2]) as u16,
                    flags(mining::SetupConnectionFlags::from_bits(n(&v[3]) as u32)),
                    st(&v[4]),
                    n(&v[5]) as u16,
                    st(&v[6]),
                    st(&v[7]),
                    st(&v[8]),
                    st(&v[9]),
                ))
            }),
            msg::<common::SetupConnection>("common::SetupConnection(job_negotiation)", 0x00, tagged(1, 1), Rule::Setup(1), |v| {
                bx(common::SetupConnection::new_job_negotation(
                    n(&v[1]) as u16,
                    n(&v[2]) as u16,
                    flags(jn::SetupConnectionFlags::from_bits(n(&v[3]) as u32)),
                    st(&v[4]),
                    n(&v[5]) as u16,
                    st(&v[6]),
                    st(&v[7]),
                    st(&v[8]),
                    st(&v[9]),
                ))
            }),
            msg::<mining::SetupConnectionSuccess>("mining::SetupConnectionSuccess", 0x01, vec![K::U16, K::Flags(3)], Rule::None, |v| {
                bx(mining::SetupConnectionSuccess::new(n(&v[0]) as u16, flags(mining::SetupConnectionSuccessFlags::from_bits(n(&v[1]) as u32))))
            }),
            msg::<jn::SetupConnectionSuccess>("job_negotiation::SetupConnectionSuccess", 0x01, vec![K::U16, K::Flags(0)], Rule::None, |v| {
                bx(jn::SetupConnectionSuccess::new(n(&v[0]) as u16, flags(jn::SetupConnectionSuccessFlags::from_bits(n(&v[1]) as u32))))
            }),
            msg::<mining::SetupConnectionError>("mining::SetupConnectionError", 0x02, vec![K::Flags(7), K::Code(SC_CODES)], Rule::SetupErr, |v| {
                bx(mining::SetupConnectionError::new(flags(mining::SetupConnectionFlags::from_bits(n(&v[0]) as u32)), sc_code(n(&v[1]))))
            }),
            msg::<jn::SetupConnectionError>("job_negotiation::SetupConnectionError", 0x02, vec![K::Flags(1), K::Code(SC_CODES)], Rule::SetupErr, |v| {
                bx(jn::SetupConnectionError::new(flags(jn::SetupConnectionFlags::from_bits(n(&v[0]) as u32)), sc_code(n(&v[1]))))
            }),
            msg::<ChannelEndpointChanged>("ChannelEndpointChanged", 0x03, vec![K::U32], Rule::None, |v| bx(ChannelEndpointChanged::new(n(&v[0]) as u32))),
            msg::<mining::OpenStandardMiningChannel>(
                "OpenStandardMiningChannel",
                0x10,
                vec![K::U32, K::Str(255), K::F32, K::U256],
                Rule::None,
                |v| bx(mining::OpenStandardMiningChannel::new(n(&v[0]) as u32, st(&v[1]), f(&v[2]), a32(&v[3]))),
            ),
            msg::<mining::OpenStandardMiningChannelSuccess>(
                "OpenStandardMiningChannelSuccess",
                0x11,
                vec![K::U32, K::U32, K::U256, K::Bytes(1, 32), K::U32],
                Rule::None,
                |v| bx(mining::OpenStandardMiningChannelSuccess::new(n(&v[0]) as u32, n(&v[1]) as u32, a32(&v[2]), b(&v[3]), n(&v[4]) as u32)),
            ),
            msg::<mining::OpenStandardMiningChannelError>("OpenStandardMiningChannelError", 0x12, vec![K::U32, K::Code(OC_CODES)], Rule::None, |v| {
                bx(mining::OpenStandardMiningChannelError::new(n(&v[0]) as u32, oc_code(n(&v[1]))))
            }),
            msg::<mining::OpenExtendedMiningChannel>(
                "OpenExtendedMiningChannel",
                0x13,
                vec![K::U32, K::Str(255), K::F32, K::U256, K::U16],
                Rule::None,
                |v| bx(mining::OpenExtendedMiningChannel::new(n(&v[0]) as u32, st(&v[1]), f(&v[2]), a32(&v[3]), n(&v[4]) as u16)),
            ),
            msg::<mining::OpenExtendedMiningChannelSuccess>(
                "OpenExtendedMiningChannelSuccess",
                0x14,
                vec![K::U32, K::U32, K::U256, K::U16, K::Bytes(1, 32)],
                Rule::None,
                |v| bx(mining::OpenExtendedMiningChannelSuccess::new(n(&v[0]) as u32, n(&v[1]) as u32, a32(&v[2]), n(&v[3]) as u16, b(&v[4]))),
            ),
            msg::<mining::OpenExtendedMiningChannelError>("OpenExtendedMiningChannelError", 0x15, vec![K::U32, K::Code(OC_CODES)], Rule::None, |v| {
                bx(mining::OpenExtendedMiningChannelError::new(n(&v[0]) as u32, oc_code(n(&v[1]))))
            }),
            msg::<mining::UpdateChannel>("UpdateChannel", 0x16, vec![K::U32, K::F32, K::U256], Rule::None, |v| {
                bx(mining::UpdateChannel::new(n(&v[0]) as u32, f(&v[1]), a32(&v[2])))
            }),
        ];
        for s in v.iter_mut() {
            s.union = s.name.starts_with("common::SetupConnection");
        }
        v
    })
}
pub fn by_name(n: &str) -> &'static Subject {
    subjects().iter().find(|s| s.name == n).expect("harness: subject")
}

// ---------------------------------------------------------------- reference encoder
pub fn le(x: u64, k: usize) -> Vec<u8> {
    x.to_le_bytes()[..k].to_vec()
}
pub fn ref_field(k: K, v: &V) -> Vec<u8> {
    match k {
        K::Bool | K::U8 | K::Tag | K::Const(_) => le(n(v), 1),
        K::U16 => le(n(v), 2),
        K::U24 => le(n(v), 3),
        K::U32 | K::F32 | K::Flags(_) => le(n(v), 4),
        K::U256 | K::Sig => b(v),
        K::Str(_) => {
            let d = b(v);
            let mut o = le(d.len() as u64, 1);
            o.extend(d);
            o
        }
        K::Bytes(p, _) => {
            let d = b(v);
            let mut o = le(d.len() as u64, p);
            o.extend(d);
            o
        }
        K::Code(c) => {
            let d = c[n(v) as usize].as_bytes();
            let mut o = le(d.len() as u64, 1);
            o.extend(d);
            o
        }
        K::Header => {
            let code = n(v) as u8;
            let bit = table_bit(code).expect("harness: registered code");
            vec![0, if bit { 0x80 } else { 0 }, code]
        }
    }
}
pub fn ref_encode(s: &Subject, vals: &[V]) -> Vec<u8> {
    s.fields.iter().zip(vals).flat_map(|(k, v)| ref_field(*k, v)).collect()
}
/// Start offset of every field in the encoding, plus the total length.
pub fn offsets(s: &Subject, vals: &[V]) -> Vec<usize> {
    let mut o = vec![0];
    for (k, v) in s.fields.iter().zip(vals) {
        o.push(o.last().unwrap() + ref_field(*k, v).len());
    }
    o
}

// ---------------------------------------------------------------- reference decoder
pub struct Rd<'a> {
    d: &'a [u8],
    pub p: usize,
}
impl<'a> Rd<'a> {
    fn take(&mut self, k: usize) -> Result<&'a [u8], E> {
        if self.d.len() - self.p < k {
            return Err(E::Parse);
        }
        let r = &self.d[self.p..self.p + k];
        self.p += k;
        Ok(r)
    }
    fn num(&mut self, k: usize) -> Result<u64, E> {
        let x = self.take(k)?;
        let mut a = [0u8; 8];
        a[..k].copy_from_slice(x);
        Ok(u64::from_le_bytes(a))
    }
}
fn ref_read(k: K, r: &mut Rd) -> Result<V, E> {
    Ok(match k {
        K::Bool => V::N(r.num(1)? & 1),
        K::U8 => V::N(r.num(1)?),
        K::U16 => V::N(r.num(2)?),
        K::U24 => V::N(r.num(3)?),
        K::U32 | K::F32 => V::N(r.num(4)?),
        K::U256 => V::B(r.take(32)?.to_vec()),
        K::Str(max) => {
            let l = r.num(1)? as usize;
            let d = r.take(l)?;
            if std::str::from_utf8(d).is_err() {
                return Err(E::Utf8);
            }
            if l > max {
                return Err(E::Requirement);
            }
            V::B(d.to_vec())
        }
        K::Bytes(p, max) => {
            let l = r.num(p)? as usize;
            let d = r.take(l)?;
            if l > max {
                return Err(E::Requirement);
            }
            V::B(d.to_vec())
        }
        K::Flags(m) => {
            let x = r.num(4)?;
            if x & !(m as u64) != 0 {
                return Err(E::Flags);
            }
            V::N(x)
        }
        K::Code(c) => {
            let l = r.num(1)? as usize;
            let d = r.take(l)?;
            if std::str::from_utf8(d).is_err() {
                return Err(E::Utf8);
            }
            match c.iter().position(|x| x.as_bytes() == d) {
                Some(i) => V::N(i as u64),
                None => return Err(E::Code),
            }
        }
        K::Sig => {
            let d = r.take(64)?;
            if d[63] & 0xe0 != 0 {
                return Err(E::Signature);
            }
            V::B(d.to_vec())
        }
        K::Tag => {
            let x = r.num(1)?;
            if x > 3 {
                return Err(E::Tag);
            }
            V::N(x)
        }
        K::Const(_) => V::N(r.num(1)?),
        K::Header => {
            let e = r.num(2)?;
            let t = r.num(1)? as u8;
            if e & 0x7fff != 0 {
                return Err(E::MsgType);
            }
            match table_bit(t) {
                None => return Err(E::MsgType),
                Some(bit) if bit != (e & 0x8000 != 0) => return Err(E::ChanBit),
                _ => V::N(t as u64),
            }
        }
    })
}
pub fn rule_err(rule: Rule, v: &[V]) -> Option<E> {
    match rule {
        Rule::None => None,
        Rule::Setup(o) => {
            if b(&v[o + 5]).is_empty() || b(&v[o + 7]).is_empty() {
                Some(E::Requirement)
            } else if n(&v[o]) < 2 || n(&v[o + 1]) < 2 {
                Some(E::Version)
            } else {
                None
            }
        }
        Rule::SetupErr => {
            if n(&v[0]) == 0 && n(&v[1]) == 0 {
                Some(E::Requirement)
            } else {
                None
            }
        }
    }
}
/// Decodes from `start`; returns the values and the position after them.
pub fn ref_decode(s: &Subject, d: &[u8], start: usize) -> Result<(Vec<V>, usize), E> {
    if start > d.len() {
        return Err(E::Parse);
    }
    let mut r = Rd { d, p: start };
    let fields: Vec<K> = if s.union {
        match d.get(start) {
            None => return Err(E::Parse),
            Some(0) => tagged(0, 7),
            Some(1) => tagged(1, 1),
            Some(2) | Some(3) => return Err(E::Unimplemented),
            _ => return Err(E::Tag),
        }
    } else {
        s.fields.clone()
    };
    let mut v = vec![];
    for k in fields {
        v.push(ref_read(k, &mut r)?);
    }
    match rule_err(s.rule, &v) {
        Some(e) => Err(e),
        None => Ok((v, r.p)),
    }
}

// ---------------------------------------------------------------- generators
pub fn gen_field(s: &mut Src, k: K) -> V {
    match k {
        K::Bool => V::N(s.uni(0, 1)),
        K::U8 => V::N(s.int(0, 0xff)),
        K::U16 => V::N(s.int(0, 0xffff)),
        K::U24 => V::N(s.int(0, 0xff_ffff)),
        K::U32 => V::N(s.int(0, 0xffff_ffff)),
        K::F32 => V::N(gen_f32(s)),
        K::U256 => V::B(s.bytes(32)),
        K::Str(m) => {
            let l = s.len(m as u64);
            V::B(s.string(l).into_bytes())
        }
        K::Bytes(1, m) => {
            let l = s.len(m as u64);
            V::B(s.bytes(l))
        }
        K::Bytes(_, m) => {
            // large types: short most of the time, larger sizes are covered by C11 and C08
            let big = s.one_in(40);
            let l = s.len(if big { m.min(70_000) } else { 600 } as u64);
            V::B(s.bytes(l))
        }
        K::Flags(m) => V::N((s.uni(0, m as u64) as u32 & m) as u64),
        K::Code(c) => V::N(s.uni(0, c.len() as u64 - 1)),
        K::Sig => {
            let mut x = s.bytes(64);
            x[63] &= 0x1f;
            V::B(x)
        }
        K::Tag => V::N(s.uni(0, 3)),
        K::Const(c) => V::N(c as u64),
        K::Header => V::N(TABLE[s.below(TABLE.len())].0 as u64),
    }
}
pub fn gen_f32(s: &mut Src) -> u64 {
    const ODD: &[u32] = &[
        0, 0x8000_0000, 1, 0x8000_0001, 0x007f_ffff, 0x0080_0000, 0x7f7f_ffff, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7fc0_0001, 0xffc0_0000,
        0x3f80_0000, 0xbf80_0000, 0x4146_6666, 0x7fff_ffff,
    ];
    s.draw(0, 0xffff_ffff, |r| match r.next() % 4 {
        0 => ODD[(r.next() % ODD.len() as u64) as usize] as u64,
        1 => ((r.next() % 2_000_000) as f32 / 100.0).to_bits() as u64,
        2 => biased(r, 0, 0xffff_ffff),
        _ => r.next() & 0xffff_ffff,
    })
}
fn top(k: K) -> Option<u64> {
    match k {
        K::U8 => Some(0xff),
        K::U16 => Some(0xffff),
        K::U24 => Some(0xff_ffff),
        K::U32 | K::F32 => Some(0xffff_ffff),
        _ => None,
    }
}
/// Ties two fields together: equal, neighbouring, one the length or the prefix of the other.
fn relate(s: &mut Src, sub: &Subject, v: &mut [V]) {
    let (i, j, how) = (s.below(v.len()), s.below(v.len()), s.below(5));
    if i == j {
        return;
    }
    let (a, kj) = (v[i].clone(), sub.fields[j]);
    match (a, top(kj)) {
        (V::N(x), Some(m)) if top(sub.fields[i]).is_some() => {
            v[j] = V::N(match how {
                0 => x.wrapping_add(1) & m,
                1 => x.wrapping_sub(1) & m,
                2 => !x & m,
                _ => x & m,
            })
        }
        (V::B(x), Some(m)) => v[j] = V::N((x.len() as u64).min(m)),
        (V::B(x), None) if kj == sub.fields[i] && matches!(kj, K::Str(_) | K::Bytes(..) | K::U256) => {
            let mut y = x;
            if how == 0 && !matches!(kj, K::U256) {
                y.pop();
                while matches!(kj, K::Str(_)) && std::str::from_utf8(&y).is_err() {
                    y.pop();
                }
            }
            v[j] = V::B(y)
        }
        _ => {}
    }
}
/// A value satisfying every rule of the subject.
pub fn gen_valid(s: &mut Src, sub: &Subject) -> Vec<V> {
    let mut v: Vec<V> = sub.fields.iter().map(|k| gen_field(s, *k)).collect();
    if v.len() > 1 && s.one_in(4) {
        relate(s, sub, &mut v);
    }
    match sub.rule {
        Rule::Setup(o) => {
            for i in [o, o + 1] {
                if n(&v[i]) < 2 {
                    v[i] = V::N(2 + n(&v[i]));
                }
            }
            for i in [o + 5, o + 7] {
                if b(&v[i]).is_empty() {
                    let l = 1 + s.len(254);
                    v[i] = V::B(s.string(l).into_bytes());
                }
            }
        }
        Rule::SetupErr => {
            if n(&v[0]) == 0 && n(&v[1]) == 0 {
                v[1] = V::N(1 + s.uni(0, 1));
            }
        }
        Rule::None => {}
    }
    v
}
pub fn gen_subject(s: &mut Src) -> &'static Subject {
    let all = subjects();
    &all[s.below(all.len())]
}
pub fn gen_message_subject(s: &mut Src) -> &'static Subject {
    let m: Vec<&'static Subject> = subjects().iter().filter(|x| x.is_message()).collect();
    m[s.below(m.len())]
}
/// Number of bytes left in a parser (consumes it).
pub fn remaining(p: &mut ByteParser) -> usize {
    let mut r = 0;
    for k in (0..28).rev() {
        if p.next_by(1 << k).is_ok() {
            r += 1 << k;
        }
    }
    r
}
pub fn show_vals(sub: &Subject, v: &[V]) -> String {
    let f: Vec<String> = v
        .iter()
        .map(|x| match x {
            V::N(n) => format!("{:#x}", n),
            V::B(b) => match std::str::from_utf8(b) {
                Ok(t) if b.iter().all(|c| *c >= 32) && b.len() < 80 => format!("{:?}", t),
                _ => format!("[{}]", hex(&b[..b.len().min(48)])) + &if b.len() > 48 { format!("({}B)", b.len()) } else { String::new() },
            },
        })
        .collect();
    format!("{}({})", sub.name, f.join(", "))
}

// for records that hold the messages themselves
pub fn as_standard(o: &dyn Obj) -> Option<mining::OpenStandardMiningChannel> {
    o.any().downcast_ref::<W<mining::OpenStandardMiningChannel>>().map(|x| x.0.clone())
}
pub fn as_extended(o: &dyn Obj) -> Option<mining::OpenExtendedMiningChannel> {
    o.any().downcast_ref::<W<mining::OpenExtendedMiningChannel>>().map(|x| x.0.clone())
}
pub fn of_standard(m: &mining::OpenStandardMiningChannel) -> Box<dyn Obj> {
    Box::new(W(m.clone()))
}
pub fn of_extended(m: &mining::OpenExtendedMiningChannel) -> Box<dyn Obj> {
    Box::new(W(m.clone()))
}
