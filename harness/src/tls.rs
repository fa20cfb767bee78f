//! The TLS ends the drivers use, with a certificate for localhost made for this purpose.
use rustls::pki_types::{CertificateDer, PrivateKeyDer, ServerName};
use rustls::{ClientConfig, RootCertStore, ServerConfig};
use std::sync::{Arc, OnceLock};

pub fn roots() -> Arc<RootCertStore> {
    static R: OnceLock<Arc<RootCertStore>> = OnceLock::new();
    R.get_or_init(|| {
        let mut r = RootCertStore::empty();
        r.add(CertificateDer::from(include_bytes!("../tls/ca.der").to_vec())).unwrap();
        Arc::new(r)
    })
    .clone()
}
pub fn server() -> Arc<ServerConfig> {
    static S: OnceLock<Arc<ServerConfig>> = OnceLock::new();
    S.get_or_init(|| {
        let cert = CertificateDer::from(include_bytes!("../tls/cert.der").to_vec());
        let key = PrivateKeyDer::try_from(include_bytes!("../tls/key.der").to_vec()).unwrap();
        Arc::new(ServerConfig::builder().with_no_client_auth().with_single_cert(vec![cert], key).unwrap())
    })
    .clone()
}
pub fn client() -> Arc<ClientConfig> {
    static C: OnceLock<Arc<ClientConfig>> = OnceLock::new();
    C.get_or_init(|| {
        let mut c = ClientConfig::builder().with_root_certificates(roots()).with_no_client_auth();
        c.resumption = rustls::client::Resumption::disabled();
        Arc::new(c)
    })
    .clone()
}
pub fn name() -> ServerName<'static> {
    ServerName::try_from("localhost").unwrap()
}

// ------------------------------------------------------------------ the two halves of a connection of the drivers
use std::io::ErrorKind::WouldBlock;
use std::pin::Pin;
use std::task::Poll;
use tokio::io::{AsyncRead, AsyncWrite, AsyncWriteExt, WriteHalf};
use tokio::net::{tcp::OwnedWriteHalf, TcpStream};
use tokio_rustls::TlsStream;

pub type Rd = Box<dyn AsyncRead + Send + Unpin>;
pub enum Wr {
    Plain(OwnedWriteHalf),
    Tls(Box<WriteHalf<TlsStream<TcpStream>>>),
}
pub fn plain(s: TcpStream) -> (Rd, Wr) {
    let (r, w) = s.into_split();
    (Box::new(r), Wr::Plain(w))
}
pub fn halves(s: TlsStream<TcpStream>) -> (Rd, Wr) {
    let (r, w) = tokio::io::split(s);
    (Box::new(r), Wr::Tls(Box::new(w)))
}
impl Wr {
    /// Writes what can be written at once.
    pub async fn try_write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        match self {
            Wr::Plain(w) => w.try_write(b),
            Wr::Tls(w) => {
                self_flush(w).await?;
                std::future::poll_fn(|cx| match Pin::new(&mut **w).poll_write(cx, b) {
                    Poll::Pending => Poll::Ready(Err(WouldBlock.into())),
                    r => r,
                })
                .await
            }
        }
    }
    /// Hands what was written to the socket, as far as that is possible at once.
    pub async fn flush(&mut self) -> std::io::Result<()> {
        match self {
            Wr::Plain(_) => Ok(()),
            Wr::Tls(w) => self_flush(w).await,
        }
    }
    pub async fn write_all(&mut self, b: &[u8]) -> std::io::Result<()> {
        match self {
            Wr::Plain(w) => w.write_all(b).await,
            Wr::Tls(w) => {
                w.write_all(b).await?;
                w.flush().await
            }
        }
    }
    pub async fn shutdown(&mut self) -> std::io::Result<()> {
        match self {
            Wr::Plain(w) => w.shutdown().await,
            Wr::Tls(w) => w.shutdown().await,
        }
    }
}
async fn self_flush(w: &mut WriteHalf<TlsStream<TcpStream>>) -> std::io::Result<()> {
    std::future::poll_fn(|cx| match Pin::new(&mut *w).poll_flush(cx) {
        Poll::Pending => Poll::Ready(Err(WouldBlock.into())),
        r => r,
    })
    .await
}
