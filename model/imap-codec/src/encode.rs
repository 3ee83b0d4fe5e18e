use crate::{AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec};
use base64::{engine::general_purpose::STANDARD, Engine};
use imap_types::{
    auth::AuthenticateData,
    command::{Command, CommandBody},
    core::{AString, IString, Literal, LiteralMode, NString, Quoted},
    extensions::{binary::LiteralOrLiteral8, idle::IdleDone},
    fetch::MessageDataItem,
    mailbox::Mailbox,
    response::{
        Bye, Capability, Code, CommandContinuationRequest, Data, Greeting, GreetingKind, Response,
        Status, StatusBody, StatusKind, Tagged,
    },
    utils::escape_quoted,
};
use std::collections::VecDeque;

pub trait Encoder {
    type Message<'a>;
    fn encode(&self, message: &Self::Message<'_>) -> Encoded;
}

#[derive(Clone, Debug)]
pub struct Encoded {
    items: VecDeque<Fragment>,
}
impl Encoded {
    pub fn dump(self) -> Vec<u8> {
        let mut out = Vec::new();
        for fragment in self.items {
            match fragment {
                Fragment::Line { mut data } => out.append(&mut data),
                Fragment::Literal { mut data, .. } => out.append(&mut data),
            }
        }
        out
    }
}
impl Iterator for Encoded {
    type Item = Fragment;
    fn next(&mut self) -> Option<Fragment> {
        self.items.pop_front()
    }
}
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub enum Fragment {
    Line { data: Vec<u8> },
    Literal { data: Vec<u8>, mode: LiteralMode },
}

#[derive(Default)]
struct Ctx {
    acc: Vec<u8>,
    items: VecDeque<Fragment>,
}
impl Ctx {
    fn s(&mut self, s: impl AsRef<[u8]>) {
        self.acc.extend_from_slice(s.as_ref())
    }
    fn line(&mut self) {
        let data = std::mem::take(&mut self.acc);
        self.items.push_back(Fragment::Line { data });
    }
    fn done(mut self) -> Encoded {
        if !self.acc.is_empty() {
            self.line();
        }
        Encoded { items: self.items }
    }
    fn literal(&mut self, data: &[u8], mode: LiteralMode) {
        self.s(match mode {
            LiteralMode::Sync => format!("{{{}}}\r\n", data.len()),
            LiteralMode::NonSync => format!("{{{}+}}\r\n", data.len()),
        });
        self.line();
        self.items.push_back(Fragment::Literal { data: data.to_vec(), mode });
    }
    fn lit(&mut self, l: &Literal) {
        self.literal(l.data(), l.mode())
    }
    fn quoted(&mut self, q: &Quoted) {
        self.s(format!("\"{}\"", escape_quoted(q.inner())))
    }
    fn istring(&mut self, i: &IString) {
        match i {
            IString::Literal(l) => self.lit(l),
            IString::Quoted(q) => self.quoted(q),
        }
    }
    fn nstring(&mut self, n: &NString) {
        match &n.0 {
            None => self.s("NIL"),
            Some(i) => self.istring(i),
        }
    }
    fn astring(&mut self, a: &AString) {
        match a {
            AString::Atom(a) => self.s(a.inner()),
            AString::String(i) => self.istring(i),
        }
    }
    fn mailbox(&mut self, m: &Mailbox) {
        match m {
            Mailbox::Inbox => self.s("INBOX"),
            Mailbox::Other(o) => self.astring(&o.0),
        }
    }
    fn code(&mut self, c: &Option<Code>) {
        let Some(c) = c else { return };
        self.s("[");
        match c {
            Code::Capability(caps) => {
                self.s("CAPABILITY ");
                self.caps(caps.as_ref())
            }
            Code::Other(o) => self.s(o.inner()),
            Code::Alert => self.s("ALERT"),
            Code::Parse => self.s("PARSE"),
            Code::ReadOnly => self.s("READ-ONLY"),
            Code::ReadWrite => self.s("READ-WRITE"),
            Code::TryCreate => self.s("TRYCREATE"),
            _ => self.s("X-MODEL"),
        }
        self.s("] ");
    }
    fn caps(&mut self, caps: &[Capability]) {
        for (i, c) in caps.iter().enumerate() {
            if i > 0 {
                self.s(" ");
            }
            self.s(c.to_string());
        }
    }
    fn kind(&mut self, k: &StatusKind) {
        self.s(match k {
            StatusKind::Ok => "OK ",
            StatusKind::No => "NO ",
            StatusKind::Bad => "BAD ",
        })
    }
    fn body(&mut self, b: &StatusBody) {
        self.kind(&b.kind);
        self.code(&b.code);
        self.s(b.text.inner());
        self.s("\r\n");
    }
}

impl Encoder for GreetingCodec {
    type Message<'a> = Greeting<'a>;
    fn encode(&self, g: &Greeting<'_>) -> Encoded {
        let mut c = Ctx::default();
        c.s("* ");
        c.s(match g.kind {
            GreetingKind::Ok => "OK ",
            GreetingKind::PreAuth => "PREAUTH ",
            GreetingKind::Bye => "BYE ",
        });
        c.code(&g.code);
        c.s(g.text.inner());
        c.s("\r\n");
        c.done()
    }
}
impl Encoder for CommandCodec {
    type Message<'a> = Command<'a>;
    fn encode(&self, m: &Command<'_>) -> Encoded {
        let mut c = Ctx::default();
        c.s(m.tag.inner());
        c.s(" ");
        match &m.body {
            CommandBody::Authenticate { mechanism, initial_response } => {
                c.s(format!("AUTHENTICATE {}", mechanism));
                if let Some(ir) = initial_response {
                    let ir = ir.declassify();
                    if ir.is_empty() {
                        c.s(" =")
                    } else {
                        c.s(format!(" {}", STANDARD.encode(ir)))
                    }
                }
            }
            CommandBody::Login { username, password } => {
                c.s("LOGIN ");
                c.astring(username);
                c.s(" ");
                c.astring(password.declassify());
            }
            CommandBody::Select { mailbox }
            | CommandBody::Examine { mailbox }
            | CommandBody::Create { mailbox }
            | CommandBody::Delete { mailbox } => {
                c.s(m.body.name());
                c.s(" ");
                c.mailbox(mailbox);
            }
            CommandBody::Append { mailbox, message, .. } => {
                c.s("APPEND ");
                c.mailbox(mailbox);
                c.s(" ");
                match message {
                    LiteralOrLiteral8::Literal(l) => c.lit(l),
                    LiteralOrLiteral8::Literal8(l) => c.literal(&l.data, l.mode),
                }
            }
            other => c.s(other.name()),
        }
        c.s("\r\n");
        c.done()
    }
}
impl Encoder for AuthenticateDataCodec {
    type Message<'a> = AuthenticateData<'a>;
    fn encode(&self, m: &AuthenticateData<'_>) -> Encoded {
        let mut c = Ctx::default();
        match m {
            AuthenticateData::Continue(d) => c.s(STANDARD.encode(d.declassify())),
            AuthenticateData::Cancel => c.s("*"),
        }
        c.s("\r\n");
        c.done()
    }
}
impl Encoder for IdleDoneCodec {
    type Message<'a> = IdleDone;
    fn encode(&self, _: &IdleDone) -> Encoded {
        let mut c = Ctx::default();
        c.s("DONE\r\n");
        c.done()
    }
}
impl Encoder for ResponseCodec {
    type Message<'a> = Response<'a>;
    fn encode(&self, m: &Response<'_>) -> Encoded {
        let mut c = Ctx::default();
        match m {
            Response::Status(Status::Untagged(b)) => {
                c.s("* ");
                c.body(b)
            }
            Response::Status(Status::Tagged(Tagged { tag, body })) => {
                c.s(tag.inner());
                c.s(" ");
                c.body(body)
            }
            Response::Status(Status::Bye(Bye { code, text })) => {
                c.s("* BYE ");
                c.code(code);
                c.s(text.inner());
                c.s("\r\n");
            }
            Response::CommandContinuationRequest(CommandContinuationRequest::Basic(b)) => {
                c.s("+ ");
                c.code(&b.code().cloned());
                c.s(b.text().inner());
                c.s("\r\n");
            }
            Response::CommandContinuationRequest(CommandContinuationRequest::Base64(d)) => {
                c.s(format!("+ {}\r\n", STANDARD.encode(d)));
            }
            Response::Data(d) => {
                c.s("* ");
                match d {
                    Data::Capability(caps) => {
                        c.s("CAPABILITY ");
                        c.caps(caps.as_ref());
                    }
                    Data::Search(ids) => {
                        c.s("SEARCH");
                        for id in ids {
                            c.s(format!(" {}", id));
                        }
                    }
                    Data::Exists(n) => c.s(format!("{} EXISTS", n)),
                    Data::Recent(n) => c.s(format!("{} RECENT", n)),
                    Data::Expunge(n) => c.s(format!("{} EXPUNGE", n)),
                    Data::Fetch { seq, items } => {
                        c.s(format!("{} FETCH (", seq));
                        for (i, item) in items.as_ref().iter().enumerate() {
                            if i > 0 {
                                c.s(" ");
                            }
                            match item {
                                MessageDataItem::Rfc822(n) => {
                                    c.s("RFC822 ");
                                    c.nstring(n);
                                }
                                MessageDataItem::BodyExt { data, .. } => {
                                    c.s("BODY[] ");
                                    c.nstring(data);
                                }
                                MessageDataItem::Uid(n) => c.s(format!("UID {}", n)),
                                _ => c.s("X-MODEL"),
                            }
                        }
                        c.s(")");
                    }
                    _ => c.s("X-MODEL"),
                }
                c.s("\r\n");
            }
        }
        c.done()
    }
}
