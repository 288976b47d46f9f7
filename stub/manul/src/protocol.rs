use alloc::{
    borrow::ToOwned,
    boxed::Box,
    collections::{BTreeMap, BTreeSet},
    format,
    string::String,
    vec::Vec,
};
use core::{any::Any, fmt};
use rand_core::CryptoRngCore;
use serde::{Deserialize, Serialize};

pub trait PartyId: 'static + fmt::Debug + Clone + Ord + Send + Sync + Serialize + for<'de> Deserialize<'de> {}
impl<T> PartyId for T where T: 'static + fmt::Debug + Clone + Ord + Send + Sync + Serialize + for<'de> Deserialize<'de> {}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct LocalError(pub String);
impl LocalError {
    pub fn new(message: impl Into<String>) -> Self {
        Self(message.into())
    }
}
impl fmt::Display for LocalError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for LocalError {}

#[derive(Debug, Clone)]
pub struct DeserializationError(pub String);

#[derive(Debug)]
pub enum MessageValidationError {
    Local(LocalError),
    InvalidEvidence(String),
}
#[derive(Debug)]
pub enum ProtocolValidationError {
    Local(LocalError),
    InvalidEvidence(String),
}
impl From<LocalError> for MessageValidationError {
    fn from(e: LocalError) -> Self {
        Self::Local(e)
    }
}
impl From<LocalError> for ProtocolValidationError {
    fn from(e: LocalError) -> Self {
        Self::Local(e)
    }
}
impl From<DirectMessageError> for ProtocolValidationError {
    fn from(e: DirectMessageError) -> Self {
        Self::InvalidEvidence(format!("{e:?}"))
    }
}
impl From<EchoBroadcastError> for ProtocolValidationError {
    fn from(e: EchoBroadcastError) -> Self {
        Self::InvalidEvidence(format!("{e:?}"))
    }
}
impl From<NormalBroadcastError> for ProtocolValidationError {
    fn from(e: NormalBroadcastError) -> Self {
        Self::InvalidEvidence(format!("{e:?}"))
    }
}

#[derive(Debug, Clone)]
pub enum PartError {
    ExpectedSome,
    ExpectedNone,
    Deserialize(DeserializationError),
}
impl fmt::Display for PartError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::ExpectedSome => f.write_str("The payload was expected to contain a message, but is `None`"),
            Self::ExpectedNone => f.write_str("The payload was expected to be `None`, but contains a message"),
            Self::Deserialize(e) => write!(f, "Deserialization error: {}", e.0),
        }
    }
}

/// The format of messages, with the serializer erased.
#[derive(Debug)]
pub struct BoxedFormat {
    pub(crate) _private: (),
}
impl BoxedFormat {
    #[cfg(feature = "dev")]
    pub fn new_for_dev() -> Self {
        Self { _private: () }
    }
    #[cfg(feature = "dev")]
    fn ser<T: Serialize>(&self, value: T) -> Result<Vec<u8>, LocalError> {
        let mut v = Vec::new();
        ciborium::into_writer(&value, &mut v).map_err(|e| LocalError(format!("{e:?}")))?;
        Ok(v)
    }
    #[cfg(feature = "dev")]
    fn de<T: for<'de> Deserialize<'de>>(&self, bytes: &[u8]) -> Result<T, PartError> {
        let mut rest = bytes;
        let r = ciborium::from_reader::<T, _>(&mut rest)
            .map_err(|e| PartError::Deserialize(DeserializationError(format!("{e:?}"))))?;
        if !rest.is_empty() {
            return Err(PartError::Deserialize(DeserializationError("trailing bytes".into())));
        }
        Ok(r)
    }
    #[cfg(not(feature = "dev"))]
    fn ser<T: Serialize>(&self, _value: T) -> Result<Vec<u8>, LocalError> {
        unimplemented!()
    }
    #[cfg(not(feature = "dev"))]
    fn de<T: for<'de> Deserialize<'de>>(&self, _bytes: &[u8]) -> Result<T, PartError> {
        unimplemented!()
    }
}

pub trait ProtocolMessagePart: Sized + Clone {
    type Error: From<PartError>;
    fn from_payload(p: Option<Vec<u8>>) -> Self;
    fn payload(&self) -> &Option<Vec<u8>>;

    fn none() -> Self {
        Self::from_payload(None)
    }
    fn new<T: 'static + Serialize>(format: &BoxedFormat, message: T) -> Result<Self, LocalError> {
        Ok(Self::from_payload(Some(format.ser(message)?)))
    }
    /// Returns `Ok(())` if the message is `None`.
    fn assert_is_none(&self) -> Result<(), Self::Error> {
        if self.payload().is_none() {
            Ok(())
        } else {
            Err(PartError::ExpectedNone.into())
        }
    }
    /// Evidence that the part is present although it should be absent.
    fn verify_is_some(&self) -> Result<(), MessageValidationError> {
        if self.payload().is_some() {
            Ok(())
        } else {
            Err(MessageValidationError::InvalidEvidence("Payload is `None`".to_owned()))
        }
    }
    /// Evidence that the part does not decode as `T`.
    fn verify_is_not<T: for<'de> Deserialize<'de>>(&self, format: &BoxedFormat) -> Result<(), MessageValidationError> {
        match self.payload() {
            None => Ok(()),
            Some(b) => match format.de::<T>(b) {
                Err(_) => Ok(()),
                Ok(_) => Err(MessageValidationError::InvalidEvidence("Message deserialized successfully".to_owned())),
            },
        }
    }
    fn deserialize<T: for<'de> Deserialize<'de>>(&self, format: &BoxedFormat) -> Result<T, Self::Error> {
        match self.payload() {
            None => Err(PartError::ExpectedSome.into()),
            Some(b) => format.de::<T>(b).map_err(Into::into),
        }
    }
}

macro_rules! part {
    ($name:ident, $err:ident) => {
        #[derive(Debug, Clone)]
        pub struct $name(Option<Vec<u8>>);
        #[derive(Debug, Clone)]
        pub struct $err(pub PartError);
        impl From<PartError> for $err {
            fn from(e: PartError) -> Self {
                Self(e)
            }
        }
        impl ProtocolMessagePart for $name {
            type Error = $err;
            fn from_payload(p: Option<Vec<u8>>) -> Self {
                Self(p)
            }
            fn payload(&self) -> &Option<Vec<u8>> {
                &self.0
            }
        }
    };
}
part!(EchoBroadcast, EchoBroadcastError);
part!(NormalBroadcast, NormalBroadcastError);
part!(DirectMessage, DirectMessageError);

#[derive(Debug, Clone)]
pub struct ProtocolMessage {
    pub echo_broadcast: EchoBroadcast,
    pub normal_broadcast: NormalBroadcast,
    pub direct_message: DirectMessage,
}

#[derive(Debug)]
pub struct Payload(pub Box<dyn Any + Send + Sync>);
impl Payload {
    pub fn new<T: 'static + Send + Sync>(payload: T) -> Self {
        Self(Box::new(payload))
    }
    pub fn empty() -> Self {
        Self::new(())
    }
    pub fn downcast<T: 'static>(self) -> Result<T, LocalError> {
        Ok(*self.0.downcast::<T>().map_err(|_| LocalError::new("failed to downcast the payload"))?)
    }
}
#[derive(Debug)]
pub struct Artifact(pub Box<dyn Any + Send + Sync>);
impl Artifact {
    pub fn new<T: 'static + Send + Sync>(artifact: T) -> Self {
        Self(Box::new(artifact))
    }
    pub fn downcast<T: 'static>(self) -> Result<T, LocalError> {
        Ok(*self.0.downcast::<T>().map_err(|_| LocalError::new("failed to downcast the artifact"))?)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct RoundId(u8);
impl RoundId {
    pub fn new(n: u8) -> Self {
        Self(n)
    }
    pub fn num(&self) -> u8 {
        self.0
    }
}
impl From<u8> for RoundId {
    fn from(n: u8) -> Self {
        Self(n)
    }
}
impl PartialEq<u8> for RoundId {
    fn eq(&self, other: &u8) -> bool {
        self.0 == *other
    }
}

#[derive(Debug, Clone)]
pub struct TransitionInfo {
    pub id: RoundId,
    pub parents: BTreeSet<RoundId>,
    pub siblings: BTreeSet<RoundId>,
    pub children: BTreeSet<RoundId>,
    pub may_produce_result: bool,
}
impl TransitionInfo {
    pub fn new_linear(n: u8) -> Self {
        Self {
            id: RoundId(n),
            parents: if n > 1 { [RoundId(n - 1)].into() } else { BTreeSet::new() },
            siblings: BTreeSet::new(),
            children: [RoundId(n + 1)].into(),
            may_produce_result: false,
        }
    }
    pub fn new_linear_terminating(n: u8) -> Self {
        Self { children: BTreeSet::new(), may_produce_result: true, ..Self::new_linear(n) }
    }
    pub fn with_children(self, children: BTreeSet<u8>) -> Self {
        let children = children.into_iter().map(RoundId).collect();
        Self { children, ..self }
    }
    pub fn with_siblings(self, siblings: BTreeSet<u8>) -> Self {
        let siblings = siblings.into_iter().map(RoundId).collect();
        Self { siblings, ..self }
    }
    pub fn id(&self) -> RoundId {
        self.id.clone()
    }
}

#[derive(Debug, Clone)]
pub enum EchoRoundParticipation<Id> {
    Default,
    Send,
    Receive { echo_targets: BTreeSet<Id> },
}
#[derive(Debug, Clone)]
pub struct CommunicationInfo<Id> {
    pub message_destinations: BTreeSet<Id>,
    pub expecting_messages_from: BTreeSet<Id>,
    pub echo_round_participation: EchoRoundParticipation<Id>,
}
impl<Id: PartyId> CommunicationInfo<Id> {
    pub fn regular(other_parties: &BTreeSet<Id>) -> Self {
        Self {
            message_destinations: other_parties.clone(),
            expecting_messages_from: other_parties.clone(),
            echo_round_participation: EchoRoundParticipation::Default,
        }
    }
    pub fn none() -> Self {
        Self {
            message_destinations: BTreeSet::new(),
            expecting_messages_from: BTreeSet::new(),
            echo_round_participation: EchoRoundParticipation::Default,
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct RequiredMessageParts {
    pub echo_broadcast: bool,
    pub normal_broadcast: bool,
    pub direct_message: bool,
}
impl RequiredMessageParts {
    fn empty() -> Self {
        Self { echo_broadcast: false, normal_broadcast: false, direct_message: false }
    }
    pub fn echo_broadcast() -> Self {
        Self { echo_broadcast: true, ..Self::empty() }
    }
    pub fn normal_broadcast() -> Self {
        Self { normal_broadcast: true, ..Self::empty() }
    }
    pub fn direct_message() -> Self {
        Self { direct_message: true, ..Self::empty() }
    }
    pub fn and_echo_broadcast(self) -> Self {
        Self { echo_broadcast: true, ..self }
    }
    pub fn and_normal_broadcast(self) -> Self {
        Self { normal_broadcast: true, ..self }
    }
    pub fn and_direct_message(self) -> Self {
        Self { direct_message: true, ..self }
    }
}
#[derive(Debug, Clone)]
pub struct RequiredMessages {
    pub this_round: RequiredMessageParts,
    pub previous_rounds: Option<BTreeMap<RoundId, RequiredMessageParts>>,
    pub combined_echos: Option<BTreeSet<RoundId>>,
}
impl RequiredMessages {
    pub fn new(
        this_round: RequiredMessageParts,
        previous_rounds: Option<BTreeMap<RoundId, RequiredMessageParts>>,
        combined_echos: Option<BTreeSet<RoundId>>,
    ) -> Self {
        Self { this_round, previous_rounds, combined_echos }
    }
}

pub trait Protocol<Id>: 'static {
    type Result: fmt::Debug;
    type ProtocolError: ProtocolError<Id>;

    fn verify_direct_message_is_invalid(
        format: &BoxedFormat,
        round_id: &RoundId,
        message: &DirectMessage,
    ) -> Result<(), MessageValidationError>;
    fn verify_echo_broadcast_is_invalid(
        format: &BoxedFormat,
        round_id: &RoundId,
        message: &EchoBroadcast,
    ) -> Result<(), MessageValidationError>;
    fn verify_normal_broadcast_is_invalid(
        format: &BoxedFormat,
        round_id: &RoundId,
        message: &NormalBroadcast,
    ) -> Result<(), MessageValidationError>;
}

pub trait ProtocolError<Id>: fmt::Display + fmt::Debug + Clone + Serialize + for<'de> Deserialize<'de> {
    type AssociatedData: fmt::Debug + Clone;

    fn required_messages(&self) -> RequiredMessages;
    #[allow(clippy::too_many_arguments)]
    fn verify_messages_constitute_error(
        &self,
        format: &BoxedFormat,
        guilty_party: &Id,
        shared_randomness: &[u8],
        associated_data: &Self::AssociatedData,
        message: ProtocolMessage,
        previous_messages: BTreeMap<RoundId, ProtocolMessage>,
        combined_echos: BTreeMap<RoundId, BTreeMap<Id, EchoBroadcast>>,
    ) -> Result<(), ProtocolValidationError>;
}

#[derive(Debug)]
pub enum ReceiveError<Id, P: Protocol<Id> + ?Sized> {
    Local(LocalError),
    Protocol(P::ProtocolError),
    Echo(PartError),
    Normal(PartError),
    Direct(PartError),
    Unprovable(String, core::marker::PhantomData<Id>),
}
impl<Id, P: Protocol<Id>> ReceiveError<Id, P> {
    pub fn local(message: impl Into<String>) -> Self {
        Self::Local(LocalError::new(message))
    }
    pub fn unprovable(message: impl Into<String>) -> Self {
        Self::Unprovable(message.into(), core::marker::PhantomData)
    }
    pub fn protocol(error: P::ProtocolError) -> Self {
        Self::Protocol(error)
    }
}
impl<Id, P: Protocol<Id>> From<LocalError> for ReceiveError<Id, P> {
    fn from(e: LocalError) -> Self {
        Self::Local(e)
    }
}
impl<Id, P: Protocol<Id>> From<EchoBroadcastError> for ReceiveError<Id, P> {
    fn from(e: EchoBroadcastError) -> Self {
        Self::Echo(e.0)
    }
}
impl<Id, P: Protocol<Id>> From<NormalBroadcastError> for ReceiveError<Id, P> {
    fn from(e: NormalBroadcastError) -> Self {
        Self::Normal(e.0)
    }
}
impl<Id, P: Protocol<Id>> From<DirectMessageError> for ReceiveError<Id, P> {
    fn from(e: DirectMessageError) -> Self {
        Self::Direct(e.0)
    }
}

#[derive(Debug)]
pub enum FinalizeOutcome<Id: PartyId, P: Protocol<Id>> {
    AnotherRound(BoxedRound<Id, P>),
    Result(P::Result),
}

pub trait EntryPoint<Id: PartyId> {
    type Protocol: Protocol<Id>;

    fn entry_round_id() -> RoundId {
        RoundId(1)
    }
    fn make_round(
        self,
        rng: &mut dyn CryptoRngCore,
        shared_randomness: &[u8],
        id: &Id,
    ) -> Result<BoxedRound<Id, Self::Protocol>, LocalError>;
}

pub trait Round<Id: PartyId>: 'static + fmt::Debug + Send + Sync {
    type Protocol: Protocol<Id>;

    fn transition_info(&self) -> TransitionInfo;
    fn communication_info(&self) -> CommunicationInfo<Id>;
    fn make_echo_broadcast(
        &self,
        _rng: &mut dyn CryptoRngCore,
        _format: &BoxedFormat,
    ) -> Result<EchoBroadcast, LocalError> {
        Ok(EchoBroadcast::none())
    }
    fn make_normal_broadcast(
        &self,
        _rng: &mut dyn CryptoRngCore,
        _format: &BoxedFormat,
    ) -> Result<NormalBroadcast, LocalError> {
        Ok(NormalBroadcast::none())
    }
    fn make_direct_message(
        &self,
        _rng: &mut dyn CryptoRngCore,
        _format: &BoxedFormat,
        _destination: &Id,
    ) -> Result<(DirectMessage, Option<Artifact>), LocalError> {
        Ok((DirectMessage::none(), None))
    }
    fn receive_message(
        &self,
        format: &BoxedFormat,
        from: &Id,
        message: ProtocolMessage,
    ) -> Result<Payload, ReceiveError<Id, Self::Protocol>>;
    fn finalize(
        self: Box<Self>,
        rng: &mut dyn CryptoRngCore,
        payloads: BTreeMap<Id, Payload>,
        artifacts: BTreeMap<Id, Artifact>,
    ) -> Result<FinalizeOutcome<Id, Self::Protocol>, LocalError>;
}

pub(crate) trait DynRound<Id: PartyId, P: Protocol<Id>>: Round<Id, Protocol = P> {
    fn as_any(&self) -> &dyn Any;
}
impl<Id: PartyId, P: Protocol<Id>, R: Round<Id, Protocol = P>> DynRound<Id, P> for R {
    fn as_any(&self) -> &dyn Any {
        self
    }
}

#[derive(Debug)]
pub struct BoxedRound<Id: PartyId, P: Protocol<Id>>(pub(crate) Box<dyn DynRound<Id, P>>);
impl<Id: PartyId, P: Protocol<Id>> BoxedRound<Id, P> {
    pub fn new_dynamic<R: Round<Id, Protocol = P>>(round: R) -> Self {
        Self(Box::new(round))
    }
    pub fn id(&self) -> RoundId {
        self.0.transition_info().id
    }
    pub fn downcast_ref<T: 'static>(&self) -> Result<&T, LocalError> {
        self.0.as_any().downcast_ref::<T>().ok_or_else(|| LocalError::new("downcast"))
    }
}
