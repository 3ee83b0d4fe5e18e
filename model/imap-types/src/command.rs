use crate::{
    auth::AuthMechanism,
    core::{AString, Charset, IString, Literal, NString, Tag, Vec1},
    datetime::DateTime,
    error::ValidationError,
    extensions::{
        binary::LiteralOrLiteral8, compress::CompressionAlgorithm, enable::CapabilityEnable,
        quota::QuotaSet, sort::SortCriterion, thread::ThreadingAlgorithm,
    },
    fetch::MacroOrMessageDataItemNames,
    flag::{Flag, StoreResponse, StoreType},
    mailbox::{ListMailbox, Mailbox},
    search::SearchKey,
    secret::Secret,
    sequence::SequenceSet,
    status::StatusDataItemName,
};
use bounded_static::ToStatic;
use std::borrow::Cow;

#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub struct Command<'a> {
    pub tag: Tag<'a>,
    pub body: CommandBody<'a>,
}
impl<'a> Command<'a> {
    pub fn new<T>(tag: T, body: CommandBody<'a>) -> Result<Self, T::Error>
    where
        T: TryInto<Tag<'a>>,
    {
        Ok(Self { tag: tag.try_into()?, body })
    }
    pub fn name(&self) -> &'static str {
        self.body.name()
    }
}
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
#[non_exhaustive]
pub enum CommandBody<'a> {
    Capability,
    Noop,
    Logout,
    StartTLS,
    Authenticate {
        mechanism: AuthMechanism<'a>,
        initial_response: Option<Secret<Cow<'a, [u8]>>>,
    },
    Login { username: AString<'a>, password: Secret<AString<'a>> },
    Select { mailbox: Mailbox<'a> },
    Unselect,
    Examine { mailbox: Mailbox<'a> },
    Create { mailbox: Mailbox<'a> },
    Delete { mailbox: Mailbox<'a> },
    Rename { from: Mailbox<'a>, to: Mailbox<'a> },
    Subscribe { mailbox: Mailbox<'a> },
    Unsubscribe { mailbox: Mailbox<'a> },
    List { reference: Mailbox<'a>, mailbox_wildcard: ListMailbox<'a> },
    Lsub { reference: Mailbox<'a>, mailbox_wildcard: ListMailbox<'a> },
    Status { mailbox: Mailbox<'a>, item_names: Cow<'a, [StatusDataItemName]> },
    Append {
        mailbox: Mailbox<'a>,
        flags: Vec<Flag<'a>>,
        date: Option<DateTime>,
        message: LiteralOrLiteral8<'a>,
    },
    Check,
    Close,
    Expunge,
    ExpungeUid { sequence_set: SequenceSet },
    Search { charset: Option<Charset<'a>>, criteria: Vec1<SearchKey<'a>>, uid: bool },
    Sort {
        sort_criteria: Vec1<SortCriterion>,
        charset: Charset<'a>,
        search_criteria: Vec1<SearchKey<'a>>,
        uid: bool,
    },
    Thread {
        algorithm: ThreadingAlgorithm<'a>,
        charset: Charset<'a>,
        search_criteria: Vec1<SearchKey<'a>>,
        uid: bool,
    },
    Fetch {
        sequence_set: SequenceSet,
        macro_or_item_names: MacroOrMessageDataItemNames<'a>,
        uid: bool,
    },
    Store {
        sequence_set: SequenceSet,
        kind: StoreType,
        response: StoreResponse,
        flags: Vec<Flag<'a>>,
        uid: bool,
    },
    Copy { sequence_set: SequenceSet, mailbox: Mailbox<'a>, uid: bool },
    Idle,
    Enable { capabilities: Vec1<CapabilityEnable<'a>> },
    Compress { algorithm: CompressionAlgorithm },
    GetQuota { root: AString<'a> },
    GetQuotaRoot { mailbox: Mailbox<'a> },
    SetQuota { root: AString<'a>, quotas: Vec<QuotaSet<'a>> },
    Move { sequence_set: SequenceSet, mailbox: Mailbox<'a>, uid: bool },
    Id { parameters: Option<Vec<(IString<'a>, NString<'a>)>> },
    SetMetadata { mailbox: Mailbox<'a>, entry_values: Vec1<(AString<'a>, NString<'a>)> },
    GetMetadata { options: Vec<u32>, mailbox: Mailbox<'a>, entries: Vec1<AString<'a>> },
}
impl<'a> CommandBody<'a> {
    pub fn tag<T>(self, tag: T) -> Result<Command<'a>, T::Error>
    where
        T: TryInto<Tag<'a>>,
    {
        Ok(Command { tag: tag.try_into()?, body: self })
    }
    pub fn authenticate(mechanism: AuthMechanism<'a>) -> Self {
        CommandBody::Authenticate { mechanism, initial_response: None }
    }
    pub fn authenticate_with_ir<I: Into<Cow<'a, [u8]>>>(mechanism: AuthMechanism<'a>, ir: I) -> Self {
        CommandBody::Authenticate { mechanism, initial_response: Some(Secret::new(ir.into())) }
    }
    pub fn login<U, P>(username: U, password: P) -> Result<Self, ValidationError>
    where
        U: TryInto<AString<'a>, Error = ValidationError>,
        P: TryInto<AString<'a>, Error = ValidationError>,
    {
        Ok(CommandBody::Login {
            username: username.try_into()?,
            password: Secret::new(password.try_into()?),
        })
    }
    pub fn select<M>(mailbox: M) -> Result<Self, M::Error>
    where
        M: TryInto<Mailbox<'a>>,
    {
        Ok(CommandBody::Select { mailbox: mailbox.try_into()? })
    }
    pub fn examine<M>(mailbox: M) -> Result<Self, M::Error>
    where
        M: TryInto<Mailbox<'a>>,
    {
        Ok(CommandBody::Examine { mailbox: mailbox.try_into()? })
    }
    pub fn append<M>(
        mailbox: M,
        flags: Vec<Flag<'a>>,
        date: Option<DateTime>,
        message: Literal<'a>,
    ) -> Result<Self, M::Error>
    where
        M: TryInto<Mailbox<'a>>,
    {
        Ok(CommandBody::Append {
            mailbox: mailbox.try_into()?,
            flags,
            date,
            message: LiteralOrLiteral8::Literal(message),
        })
    }
    pub fn name(&self) -> &'static str {
        match self {
            Self::Capability => "CAPABILITY",
            Self::Noop => "NOOP",
            Self::Logout => "LOGOUT",
            Self::StartTLS => "STARTTLS",
            Self::Authenticate { .. } => "AUTHENTICATE",
            Self::Login { .. } => "LOGIN",
            Self::Select { .. } => "SELECT",
            Self::Unselect => "UNSELECT",
            Self::Examine { .. } => "EXAMINE",
            Self::Create { .. } => "CREATE",
            Self::Delete { .. } => "DELETE",
            Self::Rename { .. } => "RENAME",
            Self::Subscribe { .. } => "SUBSCRIBE",
            Self::Unsubscribe { .. } => "UNSUBSCRIBE",
            Self::List { .. } => "LIST",
            Self::Lsub { .. } => "LSUB",
            Self::Status { .. } => "STATUS",
            Self::Append { .. } => "APPEND",
            Self::Check => "CHECK",
            Self::Close => "CLOSE",
            Self::Expunge => "EXPUNGE",
            Self::ExpungeUid { .. } => "EXPUNGE",
            Self::Search { .. } => "SEARCH",
            Self::Sort { .. } => "SORT",
            Self::Thread { .. } => "THREAD",
            Self::Fetch { .. } => "FETCH",
            Self::Store { .. } => "STORE",
            Self::Copy { .. } => "COPY",
            Self::Idle => "IDLE",
            Self::Enable { .. } => "ENABLE",
            Self::Compress { .. } => "COMPRESS",
            Self::GetQuota { .. } => "GETQUOTA",
            Self::GetQuotaRoot { .. } => "GETQUOTAROOT",
            Self::SetQuota { .. } => "SETQUOTA",
            Self::Move { .. } => "MOVE",
            Self::Id { .. } => "ID",
            Self::SetMetadata { .. } => "SETMETADATA",
            Self::GetMetadata { .. } => "GETMETADATA",
        }
    }
}
