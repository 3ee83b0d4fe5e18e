//! Small executable model of `tokio-rustls` on top of the real `rustls` and `tokio`.
pub use rustls;
use rustls::{pki_types::ServerName, ClientConfig, ClientConnection, ServerConfig, ServerConnection};
use std::{io, sync::Arc};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};

pub mod client {
    pub struct TlsStream<IO> {
        pub(crate) io: IO,
        pub(crate) session: rustls::ClientConnection,
    }
    impl<IO> TlsStream<IO> {
        pub fn get_ref(&self) -> (&IO, &rustls::ClientConnection) {
            (&self.io, &self.session)
        }
        pub fn into_inner(self) -> (IO, rustls::ClientConnection) {
            (self.io, self.session)
        }
    }
}
pub mod server {
    pub struct TlsStream<IO> {
        pub(crate) io: IO,
        pub(crate) session: rustls::ServerConnection,
    }
    impl<IO> TlsStream<IO> {
        pub fn get_ref(&self) -> (&IO, &rustls::ServerConnection) {
            (&self.io, &self.session)
        }
        pub fn into_inner(self) -> (IO, rustls::ServerConnection) {
            (self.io, self.session)
        }
    }
}
pub enum TlsStream<T> {
    Client(client::TlsStream<T>),
    Server(server::TlsStream<T>),
}
impl<T> From<client::TlsStream<T>> for TlsStream<T> {
    fn from(s: client::TlsStream<T>) -> Self {
        Self::Client(s)
    }
}
impl<T> From<server::TlsStream<T>> for TlsStream<T> {
    fn from(s: server::TlsStream<T>) -> Self {
        Self::Server(s)
    }
}

macro_rules! handshake {
    ($io:expr, $session:expr) => {{
        loop {
            while $session.wants_write() {
                let mut out = Vec::new();
                $session.write_tls(&mut out)?;
                $io.write_all(&out).await?;
            }
            if !$session.is_handshaking() {
                break;
            }
            let mut buf = [0u8; 4096];
            let n = $io.read(&mut buf).await?;
            if n == 0 {
                return Err(io::ErrorKind::UnexpectedEof.into());
            }
            let mut rest = &buf[..n];
            while !rest.is_empty() {
                $session.read_tls(&mut rest)?;
                if let Err(e) = $session.process_new_packets() {
                    let mut out = Vec::new();
                    let _ = $session.write_tls(&mut out);
                    let _ = $io.write_all(&out).await;
                    return Err(io::Error::new(io::ErrorKind::InvalidData, e));
                }
            }
        }
        $io.flush().await?;
    }};
}

#[derive(Clone)]
pub struct TlsConnector(Arc<ClientConfig>);
impl From<Arc<ClientConfig>> for TlsConnector {
    fn from(c: Arc<ClientConfig>) -> Self {
        Self(c)
    }
}
impl TlsConnector {
    pub async fn connect<IO: AsyncRead + AsyncWrite + Unpin>(
        &self,
        domain: ServerName<'static>,
        mut io: IO,
    ) -> io::Result<client::TlsStream<IO>> {
        let mut session = ClientConnection::new(self.0.clone(), domain)
            .map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
        handshake!(io, session);
        Ok(client::TlsStream { io, session })
    }
}
#[derive(Clone)]
pub struct TlsAcceptor(Arc<ServerConfig>);
impl From<Arc<ServerConfig>> for TlsAcceptor {
    fn from(c: Arc<ServerConfig>) -> Self {
        Self(c)
    }
}
impl TlsAcceptor {
    pub async fn accept<IO: AsyncRead + AsyncWrite + Unpin>(
        &self,
        mut io: IO,
    ) -> io::Result<server::TlsStream<IO>> {
        let mut session = ServerConnection::new(self.0.clone())
            .map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
        handshake!(io, session);
        Ok(server::TlsStream { io, session })
    }
}
