use base64::{engine::general_purpose::STANDARD, Engine};
use imap_types::{
    auth::{AuthMechanism, AuthenticateData},
    command::{Command, CommandBody},
    core::{AString, Atom, AtomExt, IString, Literal, LiteralMode, NString, Quoted, Tag, Text, Vec1},
    extensions::{binary::LiteralOrLiteral8, idle::IdleDone},
    fetch::MessageDataItem,
    mailbox::Mailbox,
    response::{
        Bye, Capability, Code, CodeOther, CommandContinuationRequest, CommandContinuationRequestBasic,
        Data, Greeting, GreetingKind, Response, Status, StatusBody, StatusKind, Tagged,
    },
    secret::Secret,
    utils::indicators::{is_astring_char, is_atom_char, is_text_char},
};
use std::{borrow::Cow, num::NonZeroU32};

#[derive(Debug)]
pub enum E {
    Incomplete,
    Failed,
    Literal(u32, LiteralMode),
}
type R<T> = Result<T, E>;

pub struct P<'a> {
    pub rest: &'a [u8],
}
impl<'a> P<'a> {
    pub fn new(rest: &'a [u8]) -> Self {
        Self { rest }
    }
    fn take_while1(&mut self, f: impl Fn(u8) -> bool) -> R<&'a [u8]> {
        let n = self.rest.iter().position(|b| !f(*b)).ok_or(E::Incomplete)?;
        if n == 0 {
            return Err(E::Failed);
        }
        let (a, b) = self.rest.split_at(n);
        self.rest = b;
        Ok(a)
    }
    fn opt(&mut self, s: &str) -> bool {
        if self.rest.len() >= s.len() && self.rest[..s.len()].eq_ignore_ascii_case(s.as_bytes()) {
            self.rest = &self.rest[s.len()..];
            true
        } else {
            false
        }
    }
    fn expect(&mut self, s: &str) -> R<()> {
        if self.opt(s) {
            Ok(())
        } else if self.rest.len() < s.len()
            && s.as_bytes()[..self.rest.len()].eq_ignore_ascii_case(self.rest)
        {
            Err(E::Incomplete)
        } else {
            Err(E::Failed)
        }
    }
    fn crlf(&mut self) -> R<()> {
        if self.opt("\n") {
            return Ok(());
        }
        self.expect("\r\n")
    }
    fn end<T>(&mut self, t: T) -> R<T> {
        self.crlf()?;
        Ok(t)
    }
    fn number(&mut self) -> R<u32> {
        let d = self.take_while1(|b| b.is_ascii_digit())?;
        std::str::from_utf8(d).unwrap().parse().map_err(|_| E::Failed)
    }
    fn literal(&mut self) -> R<Literal<'a>> {
        self.expect("{")?;
        let length = self.number()?;
        let mode = if self.opt("+") { LiteralMode::NonSync } else { LiteralMode::Sync };
        self.expect("}")?;
        self.crlf()?;
        if self.rest.is_empty() {
            return Err(E::Literal(length, mode));
        }
        if self.rest.len() < length as usize {
            return Err(E::Incomplete);
        }
        let (a, b) = self.rest.split_at(length as usize);
        self.rest = b;
        Literal::validate(a).map_err(|_| E::Failed)?;
        Ok(match mode {
            LiteralMode::Sync => Literal::unvalidated(a),
            LiteralMode::NonSync => Literal::unvalidated_non_sync(a),
        })
    }
    fn quoted(&mut self) -> R<Quoted<'a>> {
        self.expect("\"")?;
        let mut out = String::new();
        loop {
            let (&b, r) = self.rest.split_first().ok_or(E::Incomplete)?;
            self.rest = r;
            match b {
                b'"' => return Ok(Quoted::unvalidated(out)),
                b'\\' => {
                    let (&b, r) = self.rest.split_first().ok_or(E::Incomplete)?;
                    self.rest = r;
                    out.push(b as char);
                }
                b if is_text_char(b) => out.push(b as char),
                _ => return Err(E::Failed),
            }
        }
    }
    fn istring(&mut self) -> R<IString<'a>> {
        match self.rest.first() {
            Some(b'{') => Ok(IString::Literal(self.literal()?)),
            Some(b'"') => Ok(IString::Quoted(self.quoted()?)),
            None => Err(E::Incomplete),
            _ => Err(E::Failed),
        }
    }
    fn nstring(&mut self) -> R<NString<'a>> {
        if self.opt("NIL") {
            return Ok(NString(None));
        }
        Ok(NString(Some(self.istring()?)))
    }
    fn astring(&mut self) -> R<AString<'a>> {
        match self.rest.first() {
            Some(b'{') | Some(b'"') => Ok(AString::String(self.istring()?)),
            _ => {
                let a = self.take_while1(is_astring_char)?;
                Ok(AString::Atom(AtomExt::try_from(a).map_err(|_| E::Failed)?))
            }
        }
    }
    fn mailbox(&mut self) -> R<Mailbox<'a>> {
        Ok(self.astring()?.into())
    }
    fn text(&mut self) -> R<Text<'a>> {
        let t = self.take_while1(is_text_char)?;
        Text::try_from(t).map_err(|_| E::Failed)
    }
    pub fn tag(&mut self) -> R<Tag<'a>> {
        let t = self.take_while1(|b| is_astring_char(b) && b != b'+')?;
        Tag::try_from(t).map_err(|_| E::Failed)
    }
    fn atom(&mut self) -> R<Atom<'a>> {
        let t = self.take_while1(is_atom_char)?;
        Atom::try_from(t).map_err(|_| E::Failed)
    }
    fn caps(&mut self) -> R<Vec1<Capability<'a>>> {
        let mut caps = vec![];
        loop {
            // `]` closes a response code
            let t = self.take_while1(|b| is_atom_char(b) && b != b']')?;
            caps.push(Atom::try_from(t).map_err(|_| E::Failed)?.into());
            if !self.opt(" ") {
                break;
            }
        }
        Vec1::try_from(caps).map_err(|_| E::Failed)
    }
    fn code(&mut self) -> R<Option<Code<'a>>> {
        if !self.opt("[") {
            return Ok(None);
        }
        let code = if self.opt("CAPABILITY ") {
            Code::Capability(self.caps()?)
        } else {
            let raw = self.take_while1(|b| b != b']' && is_text_char(b))?;
            match raw {
                b"ALERT" => Code::Alert,
                b"PARSE" => Code::Parse,
                b"READ-ONLY" => Code::ReadOnly,
                b"READ-WRITE" => Code::ReadWrite,
                b"TRYCREATE" => Code::TryCreate,
                other => Code::Other(CodeOther::unvalidated(other)),
            }
        };
        self.expect("]")?;
        self.expect(" ")?;
        Ok(Some(code))
    }
    fn coded_text(&mut self) -> R<(Option<Code<'a>>, Text<'a>)> {
        Ok((self.code()?, self.text()?))
    }
    pub fn greeting(&mut self) -> R<Greeting<'a>> {
        self.expect("* ")?;
        let kind = if self.opt("OK ") {
            GreetingKind::Ok
        } else if self.opt("PREAUTH ") {
            GreetingKind::PreAuth
        } else {
            self.expect("BYE ")?;
            GreetingKind::Bye
        };
        let (code, text) = self.coded_text()?;
        self.end(Greeting { kind, code, text })
    }
    pub fn authenticate_data(&mut self) -> R<AuthenticateData<'a>> {
        if self.opt("*") {
            return self.end(AuthenticateData::Cancel);
        }
        let n = self.rest.iter().position(|b| *b == b'\n').ok_or(E::Incomplete)?;
        let line = &self.rest[..n];
        let line = line.strip_suffix(b"\r").unwrap_or(line);
        let data = STANDARD.decode(line).map_err(|_| E::Failed)?;
        self.rest = &self.rest[n + 1..];
        Ok(AuthenticateData::Continue(Secret::new(Cow::Owned(data))))
    }
    pub fn idle_done(&mut self) -> R<IdleDone> {
        self.expect("DONE")?;
        self.end(IdleDone)
    }
    pub fn command(&mut self) -> R<Command<'a>> {
        let tag = self.tag()?;
        self.expect(" ")?;
        let name = self.take_while1(|b| b.is_ascii_alphabetic())?.to_ascii_uppercase();
        let body = match name.as_slice() {
            b"CAPABILITY" => CommandBody::Capability,
            b"NOOP" => CommandBody::Noop,
            b"LOGOUT" => CommandBody::Logout,
            b"STARTTLS" => CommandBody::StartTLS,
            b"CHECK" => CommandBody::Check,
            b"CLOSE" => CommandBody::Close,
            b"EXPUNGE" => CommandBody::Expunge,
            b"UNSELECT" => CommandBody::Unselect,
            b"IDLE" => CommandBody::Idle,
            b"LOGIN" => {
                self.expect(" ")?;
                let username = self.astring()?;
                self.expect(" ")?;
                CommandBody::Login { username, password: Secret::new(self.astring()?) }
            }
            b"AUTHENTICATE" => {
                self.expect(" ")?;
                let mechanism = AuthMechanism::from(self.atom()?);
                let initial_response = if self.opt(" ") {
                    if self.opt("=") {
                        Some(Secret::new(Cow::Borrowed(&b""[..])))
                    } else {
                        let t = self.take_while1(|b| b.is_ascii_alphanumeric() || b"+/=".contains(&b))?;
                        Some(Secret::new(Cow::Owned(STANDARD.decode(t).map_err(|_| E::Failed)?)))
                    }
                } else {
                    None
                };
                CommandBody::Authenticate { mechanism, initial_response }
            }
            b"SELECT" | b"EXAMINE" | b"CREATE" | b"DELETE" => {
                self.expect(" ")?;
                let mailbox = self.mailbox()?;
                match name.as_slice() {
                    b"SELECT" => CommandBody::Select { mailbox },
                    b"EXAMINE" => CommandBody::Examine { mailbox },
                    b"CREATE" => CommandBody::Create { mailbox },
                    _ => CommandBody::Delete { mailbox },
                }
            }
            b"APPEND" => {
                self.expect(" ")?;
                let mailbox = self.mailbox()?;
                self.expect(" ")?;
                let message = LiteralOrLiteral8::Literal(self.literal()?);
                CommandBody::Append { mailbox, flags: vec![], date: None, message }
            }
            _ => return Err(E::Failed),
        };
        self.end(Command { tag, body })
    }
    fn status_body(&mut self, kind: StatusKind) -> R<StatusBody<'a>> {
        let (code, text) = self.coded_text()?;
        Ok(StatusBody { kind, code, text })
    }
    pub fn response(&mut self) -> R<Response<'a>> {
        if self.opt("+ ") {
            let n = self.rest.iter().position(|b| *b == b'\n').ok_or(E::Incomplete)?;
            let line = &self.rest[..n];
            let line = line.strip_suffix(b"\r").unwrap_or(line);
            let ccr = match STANDARD.decode(line) {
                Ok(d) => CommandContinuationRequest::Base64(Cow::Owned(d)),
                Err(_) => {
                    let (code, text) = self.coded_text()?;
                    CommandContinuationRequest::Basic(
                        CommandContinuationRequestBasic::new(code, text).map_err(|_| E::Failed)?,
                    )
                }
            };
            self.rest = &self.rest[self.rest.iter().position(|b| *b == b'\n').unwrap() + 1..];
            return Ok(Response::CommandContinuationRequest(ccr));
        }
        if self.opt("* ") {
            for (s, kind) in [("OK ", StatusKind::Ok), ("NO ", StatusKind::No), ("BAD ", StatusKind::Bad)] {
                if self.opt(s) {
                    let body = self.status_body(kind)?;
                    return self.end(Response::Status(Status::Untagged(body)));
                }
            }
            if self.opt("BYE ") {
                let (code, text) = self.coded_text()?;
                return self.end(Response::Status(Status::Bye(Bye { code, text })));
            }
            if self.opt("CAPABILITY ") {
                let caps = self.caps()?;
                return self.end(Response::Data(Data::Capability(caps)));
            }
            if self.opt("SEARCH") {
                let mut ids = vec![];
                while self.opt(" ") {
                    ids.push(NonZeroU32::new(self.number()?).ok_or(E::Failed)?);
                }
                return self.end(Response::Data(Data::Search(ids)));
            }
            let n = self.number()?;
            self.expect(" ")?;
            if self.opt("EXISTS") {
                return self.end(Response::Data(Data::Exists(n)));
            }
            if self.opt("RECENT") {
                return self.end(Response::Data(Data::Recent(n)));
            }
            let seq = NonZeroU32::new(n).ok_or(E::Failed)?;
            if self.opt("EXPUNGE") {
                return self.end(Response::Data(Data::Expunge(seq)));
            }
            self.expect("FETCH (")?;
            let mut items = vec![];
            loop {
                if self.opt("RFC822 ") {
                    items.push(MessageDataItem::Rfc822(self.nstring()?));
                } else if self.opt("BODY[] ") {
                    items.push(MessageDataItem::BodyExt {
                        section: None,
                        origin: None,
                        data: self.nstring()?,
                    });
                } else {
                    self.expect("UID ")?;
                    items.push(MessageDataItem::Uid(
                        NonZeroU32::new(self.number()?).ok_or(E::Failed)?,
                    ));
                }
                if !self.opt(" ") {
                    break;
                }
            }
            self.expect(")")?;
            let items = Vec1::try_from(items).map_err(|_| E::Failed)?;
            return self.end(Response::Data(Data::Fetch { seq, items }));
        }
        let tag = self.tag()?;
        self.expect(" ")?;
        let kind = if self.opt("OK ") {
            StatusKind::Ok
        } else if self.opt("NO ") {
            StatusKind::No
        } else {
            self.expect("BAD ")?;
            StatusKind::Bad
        };
        let body = self.status_body(kind)?;
        self.end(Response::Status(Status::Tagged(Tagged { tag, body })))
    }
}
