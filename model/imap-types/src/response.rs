use crate::{
    auth::AuthMechanism,
    core::{AString, Atom, Charset, IString, NString, QuotedChar, Tag, Text, Vec1},
    error::ValidationError,
    extensions::{
        compress::CompressionAlgorithm,
        enable::{CapabilityEnable, Utf8Kind},
        quota::{QuotaGet, Resource},
        sort::SortAlgorithm,
        thread::ThreadingAlgorithm,
        uidplus::UidSet,
    },
    fetch::MessageDataItem,
    flag::{Flag, FlagNameAttribute, FlagPerm},
    mailbox::Mailbox,
    status::StatusDataItem,
};
use bounded_static::ToStatic;
use std::{
    borrow::Cow,
    fmt::{Debug, Display, Formatter},
    num::{NonZeroU32, NonZeroU64},
};

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct Greeting<'a> {
    pub kind: GreetingKind,
    pub code: Option<Code<'a>>,
    pub text: Text<'a>,
}
impl<'a> Greeting<'a> {
    pub fn new(kind: GreetingKind, code: Option<Code<'a>>, text: &'a str) -> Result<Self, ValidationError> {
        Ok(Greeting { kind, code, text: text.try_into()? })
    }
    pub fn ok(code: Option<Code<'a>>, text: &'a str) -> Result<Self, ValidationError> {
        Self::new(GreetingKind::Ok, code, text)
    }
    pub fn preauth(code: Option<Code<'a>>, text: &'a str) -> Result<Self, ValidationError> {
        Self::new(GreetingKind::PreAuth, code, text)
    }
    pub fn bye(code: Option<Code<'a>>, text: &'a str) -> Result<Self, ValidationError> {
        Self::new(GreetingKind::Bye, code, text)
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
pub enum GreetingKind {
    Ok,
    PreAuth,
    Bye,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum Response<'a> {
    CommandContinuationRequest(CommandContinuationRequest<'a>),
    Data(Data<'a>),
    Status(Status<'a>),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum Status<'a> {
    Untagged(StatusBody<'a>),
    Tagged(Tagged<'a>),
    Bye(Bye<'a>),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct StatusBody<'a> {
    pub kind: StatusKind,
    pub code: Option<Code<'a>>,
    pub text: Text<'a>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
pub enum StatusKind {
    Ok,
    No,
    Bad,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct Tagged<'a> {
    pub tag: Tag<'a>,
    pub body: StatusBody<'a>,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct Bye<'a> {
    pub code: Option<Code<'a>>,
    pub text: Text<'a>,
}
impl<'a> Status<'a> {
    pub fn new<T>(
        tag: Option<Tag<'a>>,
        kind: StatusKind,
        code: Option<Code<'a>>,
        text: T,
    ) -> Result<Self, T::Error>
    where
        T: TryInto<Text<'a>>,
    {
        let body = StatusBody { kind, code, text: text.try_into()? };
        Ok(match tag {
            Some(tag) => Self::Tagged(Tagged { tag, body }),
            None => Self::Untagged(body),
        })
    }
    pub fn ok<T>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error>
    where
        T: TryInto<Text<'a>>,
    {
        Self::new(tag, StatusKind::Ok, code, text)
    }
    pub fn no<T>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error>
    where
        T: TryInto<Text<'a>>,
    {
        Self::new(tag, StatusKind::No, code, text)
    }
    pub fn bad<T>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error>
    where
        T: TryInto<Text<'a>>,
    {
        Self::new(tag, StatusKind::Bad, code, text)
    }
    pub fn bye<T>(code: Option<Code<'a>>, text: T) -> Result<Self, T::Error>
    where
        T: TryInto<Text<'a>>,
    {
        Ok(Self::Bye(Bye { code, text: text.try_into()? }))
    }
    pub fn tag(&self) -> Option<&Tag<'a>> {
        match self {
            Self::Tagged(Tagged { tag, .. }) => Some(tag),
            _ => None,
        }
    }
    pub fn code(&self) -> Option<&Code<'a>> {
        match self {
            Self::Untagged(StatusBody { code, .. })
            | Self::Tagged(Tagged { body: StatusBody { code, .. }, .. })
            | Self::Bye(Bye { code, .. }) => code.as_ref(),
        }
    }
    pub fn text(&self) -> &Text<'a> {
        match self {
            Self::Untagged(StatusBody { text, .. })
            | Self::Tagged(Tagged { body: StatusBody { text, .. }, .. })
            | Self::Bye(Bye { text, .. }) => text,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum Data<'a> {
    Capability(Vec1<Capability<'a>>),
    List {
        items: Vec<FlagNameAttribute<'a>>,
        delimiter: Option<QuotedChar>,
        mailbox: Mailbox<'a>,
    },
    Lsub {
        items: Vec<FlagNameAttribute<'a>>,
        delimiter: Option<QuotedChar>,
        mailbox: Mailbox<'a>,
    },
    Status { mailbox: Mailbox<'a>, items: Vec<StatusDataItem> },
    Search(Vec<NonZeroU32>),
    Sort(Vec<NonZeroU32>),
    Thread(Vec<NonZeroU32>),
    Flags(Vec<Flag<'a>>),
    Exists(u32),
    Recent(u32),
    Expunge(NonZeroU32),
    Fetch { seq: NonZeroU32, items: Vec1<MessageDataItem<'a>> },
    Enabled { capabilities: Vec<CapabilityEnable<'a>> },
    Quota { root: AString<'a>, quotas: Vec1<QuotaGet<'a>> },
    QuotaRoot { mailbox: Mailbox<'a>, roots: Vec<AString<'a>> },
    Id { parameters: Option<Vec<(IString<'a>, NString<'a>)>> },
    Metadata { mailbox: Mailbox<'a>, items: Vec<AString<'a>> },
}
impl<'a> Data<'a> {
    pub fn capability<C>(caps: C) -> Result<Self, C::Error>
    where
        C: TryInto<Vec1<Capability<'a>>>,
    {
        Ok(Self::Capability(caps.try_into()?))
    }
    pub fn expunge(seq: u32) -> Result<Self, std::num::TryFromIntError> {
        Ok(Self::Expunge(NonZeroU32::try_from(seq)?))
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum CommandContinuationRequest<'a> {
    Basic(CommandContinuationRequestBasic<'a>),
    Base64(Cow<'a, [u8]>),
}
impl<'a> CommandContinuationRequest<'a> {
    pub fn basic<T>(code: Option<Code<'a>>, text: T) -> Result<Self, ContinueError<T::Error>>
    where
        T: TryInto<Text<'a>>,
    {
        Ok(Self::Basic(CommandContinuationRequestBasic::new(code, text)?))
    }
    pub fn base64<D>(data: D) -> Self
    where
        D: Into<Cow<'a, [u8]>>,
    {
        Self::Base64(data.into())
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct CommandContinuationRequestBasic<'a> {
    code: Option<Code<'a>>,
    text: Text<'a>,
}
impl<'a> CommandContinuationRequestBasic<'a> {
    pub fn new<T>(code: Option<Code<'a>>, text: T) -> Result<Self, ContinueError<T::Error>>
    where
        T: TryInto<Text<'a>>,
    {
        let text = text.try_into().map_err(ContinueError::Text)?;
        // Ambiguity with the Base64 form is refused.
        if code.is_none() && text.as_ref().starts_with('[') {
            return Err(ContinueError::Ambiguity);
        }
        if code.is_none()
            && base64::Engine::decode(&base64::engine::general_purpose::STANDARD, text.inner()).is_ok()
        {
            return Err(ContinueError::Ambiguity);
        }
        Ok(Self { code, text })
    }
    pub fn code(&self) -> Option<&Code<'a>> {
        self.code.as_ref()
    }
    pub fn text(&self) -> &Text<'a> {
        &self.text
    }
}
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub enum ContinueError<T> {
    Ambiguity,
    Text(T),
}
impl<T: Debug> Display for ContinueError<T> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl<T: Debug> std::error::Error for ContinueError<T> {}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
#[non_exhaustive]
pub enum Code<'a> {
    Alert,
    BadCharset { allowed: Vec<Charset<'a>> },
    Capability(Vec1<Capability<'a>>),
    Parse,
    PermanentFlags(Vec<FlagPerm<'a>>),
    ReadOnly,
    ReadWrite,
    TryCreate,
    UidNext(NonZeroU32),
    UidValidity(NonZeroU32),
    Unseen(NonZeroU32),
    Referral(Cow<'a, str>),
    CompressionActive,
    OverQuota,
    TooBig,
    Metadata(u32),
    UnknownCte,
    AppendUid { uid_validity: NonZeroU32, uid: NonZeroU32 },
    CopyUid { uid_validity: NonZeroU32, source: UidSet, destination: UidSet },
    UidNotSticky,
    HighestModSeq(NonZeroU64),
    NoModSeq,
    Modified(UidSet),
    Closed,
    Other(CodeOther<'a>),
}
impl<'a> Code<'a> {
    pub fn badcharset(allowed: Vec<Charset<'a>>) -> Self {
        Self::BadCharset { allowed }
    }
    pub fn capability<C>(caps: C) -> Result<Self, C::Error>
    where
        C: TryInto<Vec1<Capability<'a>>>,
    {
        Ok(Self::Capability(caps.try_into()?))
    }
}
#[derive(Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct CodeOther<'a>(Cow<'a, [u8]>);
impl<'a> CodeOther<'a> {
    pub fn unvalidated<D: Into<Cow<'a, [u8]>>>(data: D) -> Self {
        Self(data.into())
    }
    pub fn inner(&self) -> &[u8] {
        self.0.as_ref()
    }
}
impl<'a> Debug for CodeOther<'a> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        f.debug_tuple("CodeOther").field(&self.0).finish()
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
#[non_exhaustive]
pub enum Capability<'a> {
    Imap4Rev1,
    Auth(AuthMechanism<'a>),
    LoginDisabled,
    StartTls,
    MailboxReferrals,
    LoginReferrals,
    SaslIr,
    Idle,
    Enable,
    Utf8(Utf8Kind),
    Compress { algorithm: CompressionAlgorithm },
    Quota,
    QuotaRes(Resource<'a>),
    QuotaSet,
    LiteralPlus,
    LiteralMinus,
    Move,
    Id,
    Unselect,
    Sort(Option<SortAlgorithm<'a>>),
    Thread(ThreadingAlgorithm<'a>),
    Metadata,
    MetadataServer,
    Binary,
    UidPlus,
    CondStore,
    QResync,
    Other(CapabilityOther<'a>),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
pub struct CapabilityOther<'a>(pub(crate) Atom<'a>);
impl<'a> CapabilityOther<'a> {
    pub fn inner(&self) -> &Atom<'a> {
        &self.0
    }
}
impl<'a> From<Atom<'a>> for Capability<'a> {
    fn from(a: Atom<'a>) -> Self {
        match a.as_ref().to_ascii_uppercase().as_str() {
            "IMAP4REV1" => Self::Imap4Rev1,
            "LOGINDISABLED" => Self::LoginDisabled,
            "STARTTLS" => Self::StartTls,
            "SASL-IR" => Self::SaslIr,
            "IDLE" => Self::Idle,
            "ENABLE" => Self::Enable,
            "QUOTA" => Self::Quota,
            "QUOTASET" => Self::QuotaSet,
            "LITERAL+" => Self::LiteralPlus,
            "LITERAL-" => Self::LiteralMinus,
            "MOVE" => Self::Move,
            "ID" => Self::Id,
            "UNSELECT" => Self::Unselect,
            "METADATA" => Self::Metadata,
            "BINARY" => Self::Binary,
            "UIDPLUS" => Self::UidPlus,
            "CONDSTORE" => Self::CondStore,
            "COMPRESS=DEFLATE" => Self::Compress { algorithm: CompressionAlgorithm::Deflate },
            s if s.starts_with("AUTH=") => {
                Self::Auth(AuthMechanism::from(Atom::unvalidated(a.as_ref()[5..].to_string())))
            }
            _ => Self::Other(CapabilityOther(a)),
        }
    }
}
impl<'a> TryFrom<&'a str> for Capability<'a> {
    type Error = ValidationError;
    fn try_from(v: &'a str) -> Result<Self, ValidationError> {
        Ok(Atom::try_from(v)?.into())
    }
}
impl<'a> Display for Capability<'a> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        match self {
            Self::Imap4Rev1 => write!(f, "IMAP4REV1"),
            Self::Auth(m) => write!(f, "AUTH={}", m),
            Self::LoginDisabled => write!(f, "LOGINDISABLED"),
            Self::StartTls => write!(f, "STARTTLS"),
            Self::SaslIr => write!(f, "SASL-IR"),
            Self::Idle => write!(f, "IDLE"),
            Self::Enable => write!(f, "ENABLE"),
            Self::Quota => write!(f, "QUOTA"),
            Self::QuotaSet => write!(f, "QUOTASET"),
            Self::LiteralPlus => write!(f, "LITERAL+"),
            Self::LiteralMinus => write!(f, "LITERAL-"),
            Self::Move => write!(f, "MOVE"),
            Self::Id => write!(f, "ID"),
            Self::Unselect => write!(f, "UNSELECT"),
            Self::Metadata => write!(f, "METADATA"),
            Self::Binary => write!(f, "BINARY"),
            Self::UidPlus => write!(f, "UIDPLUS"),
            Self::CondStore => write!(f, "CONDSTORE"),
            Self::Compress { .. } => write!(f, "COMPRESS=DEFLATE"),
            Self::Other(o) => write!(f, "{}", o.0),
            other => write!(f, "X-{:?}", std::mem::discriminant(other)),
        }
    }
}
