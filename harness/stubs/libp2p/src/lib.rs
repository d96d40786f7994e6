//! Stand-in for libp2p 0.44: a network played from a script. What the code sets up and asks for is
//! written down; the events and the bytes of the script are what it hears.
pub use futures;
pub use libp2p_macro::NetworkBehaviour;
use std::cell::RefCell;
use std::collections::VecDeque;

#[derive(Clone, Debug)]
pub enum Heard {
    /// a connection to this peer
    Connected(usize),
    /// something else
    Other(usize),
}
#[derive(Clone, Debug)]
pub enum Bytes {
    Some(Vec<u8>),
    /// nothing for now
    Wait,
    Fails,
}
#[derive(Default)]
pub struct Script {
    pub dial_fails: bool,
    pub events: VecDeque<Heard>,
    /// the streams, in the order they are opened
    pub streams: VecDeque<VecDeque<Bytes>>,
    pub log: Vec<String>,
}
thread_local! {
    static SCRIPT: RefCell<Script> = RefCell::new(Script::default());
}
pub fn script<T>(f: impl FnOnce(&mut Script) -> T) -> T {
    SCRIPT.with(|s| f(&mut s.borrow_mut()))
}
fn note(s: String) {
    script(|x| x.log.push(s))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct PeerId(pub usize);
impl std::fmt::Display for PeerId {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "peer{}", self.0)
    }
}
impl From<identity::PublicKey> for PeerId {
    fn from(k: identity::PublicKey) -> Self {
        PeerId(k.0)
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Multiaddr(String);
#[derive(Clone, Debug)]
pub struct AddrError;
impl std::fmt::Display for AddrError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("invalid multiaddr")
    }
}
impl std::error::Error for AddrError {}
impl std::str::FromStr for Multiaddr {
    type Err = AddrError;
    fn from_str(s: &str) -> Result<Self, AddrError> {
        let mut p = s.split('/');
        if p.next() != Some("") {
            return Err(AddrError);
        }
        while let Some(n) = p.next() {
            let known = match n {
                "ip4" => p.next().and_then(|x| x.parse::<std::net::Ipv4Addr>().ok()).is_some(),
                "ip6" => p.next().and_then(|x| x.parse::<std::net::Ipv6Addr>().ok()).is_some(),
                "dns4" | "dns6" | "dns" | "p2p" => p.next().map_or(false, |x| !x.is_empty()),
                "tcp" | "udp" => p.next().and_then(|x| x.parse::<u16>().ok()).is_some(),
                "ws" | "wss" => true,
                _ => false,
            };
            if !known {
                return Err(AddrError);
            }
        }
        Ok(Multiaddr(s.into()))
    }
}
impl std::fmt::Display for Multiaddr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

pub mod identity {
    #[derive(Clone, Debug)]
    pub struct PublicKey(pub usize);
    #[derive(Clone, Debug)]
    pub struct Keypair(pub usize);
    impl Keypair {
        pub fn generate_ed25519() -> Self {
            Keypair(7)
        }
        pub fn public(&self) -> PublicKey {
            PublicKey(self.0)
        }
    }
}
pub mod mplex {
    #[derive(Clone, Debug)]
    pub struct MplexConfig(pub(crate) &'static [u8]);
    impl MplexConfig {
        pub fn new() -> Self {
            MplexConfig(b"/mplex/6.7.0")
        }
        pub fn set_protocol_name(&mut self, n: &'static [u8]) -> &mut Self {
            self.0 = n;
            self
        }
    }
    impl Default for MplexConfig {
        fn default() -> Self {
            Self::new()
        }
    }
}
pub mod noise {
    pub trait Key {}
    #[derive(Clone, Debug)]
    pub struct X25519Spec;
    #[derive(Clone, Debug)]
    pub struct Keypair<T>(std::marker::PhantomData<T>);
    #[derive(Clone, Debug)]
    pub struct AuthenticKeypair<T>(pub(crate) usize, std::marker::PhantomData<T>);
    impl<T> Keypair<T> {
        pub fn new() -> Self {
            Keypair(std::marker::PhantomData)
        }
        pub fn into_authentic(self, k: &crate::identity::Keypair) -> Result<AuthenticKeypair<T>, std::fmt::Error> {
            Ok(AuthenticKeypair(k.0, std::marker::PhantomData))
        }
    }
    pub struct NoiseConfig(usize);
    pub struct NoiseAuthenticated(pub(crate) usize);
    impl NoiseConfig {
        pub fn xx<T>(k: AuthenticKeypair<T>) -> Self {
            NoiseConfig(k.0)
        }
        pub fn into_authenticated(self) -> NoiseAuthenticated {
            NoiseAuthenticated(self.0)
        }
    }
}
pub mod pnet {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct PreSharedKey(pub [u8; 32]);
    impl PreSharedKey {
        pub fn new(k: [u8; 32]) -> Self {
            PreSharedKey(k)
        }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct PnetConfig(PreSharedKey);
    impl PnetConfig {
        pub fn new(k: PreSharedKey) -> Self {
            PnetConfig(k)
        }
        pub fn handshake(self, s: crate::core::transport::Socket) -> crate::core::transport::Shaken {
            let crate::core::transport::Socket = s;
            crate::core::transport::Shaken(self.0 .0)
        }
    }
}
pub mod wasm_ext {
    pub mod ffi {
        pub struct Ws;
        pub fn websocket_transport() -> Ws {
            Ws
        }
    }
    pub struct ExtTransport;
    impl ExtTransport {
        pub fn new(_: ffi::Ws) -> Self {
            ExtTransport
        }
    }
}
pub use self::core::transport::Transport;
pub mod core {
    pub trait ProtocolName {
        fn protocol_name(&self) -> &[u8];
    }
    pub mod muxing {
        pub struct StreamMuxerBox;
    }
    pub mod upgrade {
        #[derive(Debug)]
        pub enum Version {
            V1,
            V1Lazy,
        }
    }
    pub mod transport {
        use std::time::Duration;
        pub struct Socket;
        pub struct Shaken(pub [u8; 32]);
        /// what a transport is made of
        #[derive(Clone, Debug, Default)]
        pub struct Made {
            pub psk: Option<[u8; 32]>,
            pub noise: Option<usize>,
            pub mplex: Option<&'static [u8]>,
            pub timeout: Option<Duration>,
        }
        pub trait Transport: Sized {
            fn and_then<F: FnOnce(Socket, ()) -> Shaken>(self, f: F) -> Stack;
        }
        impl Transport for crate::wasm_ext::ExtTransport {
            fn and_then<F: FnOnce(Socket, ()) -> Shaken>(self, f: F) -> Stack {
                Stack(Made { psk: Some(f(Socket, ()).0), ..Default::default() })
            }
        }
        pub struct Stack(Made);
        impl Stack {
            pub fn upgrade(self, _: super::upgrade::Version) -> Self {
                self
            }
            pub fn authenticate(mut self, k: crate::noise::NoiseAuthenticated) -> Self {
                self.0.noise = Some(k.0);
                self
            }
            pub fn multiplex(mut self, m: crate::mplex::MplexConfig) -> Self {
                self.0.mplex = Some(m.0);
                self
            }
            pub fn timeout(mut self, t: Duration) -> Self {
                self.0.timeout = Some(t);
                self
            }
            pub fn boxed<T>(self) -> Boxed<T> {
                Boxed(self.0, std::marker::PhantomData)
            }
        }
        pub struct Boxed<T>(pub Made, std::marker::PhantomData<T>);
    }
}

pub mod swarm {
    use super::*;
    use std::future::Future;
    use std::pin::Pin;
    #[allow(async_fn_in_trait)]
    pub trait Part {
        type Event;
        async fn next_event(&mut self) -> Option<Self::Event>;
    }
    pub trait NetworkBehaviour {
        fn work(&mut self) -> Pin<Box<dyn Future<Output = ()> + '_>>;
    }
    pub trait NetworkBehaviourEventProcess<E> {
        fn inject_event(&mut self, event: E);
    }
    pub enum SwarmEvent {
        #[non_exhaustive]
        ConnectionEstablished { peer_id: PeerId, num_established: u32 },
        ConnectionClosed { peer_id: PeerId },
        Dialing(PeerId),
        Behaviour(()),
    }
    pub struct SwarmBuilder<B>(Swarm<B>);
    impl<B: NetworkBehaviour> SwarmBuilder<B> {
        pub fn new(t: core::transport::Boxed<(PeerId, core::muxing::StreamMuxerBox)>, b: B, p: PeerId) -> Self {
            note(describe(&t.0, p));
            SwarmBuilder(Swarm { b })
        }
        pub fn build(self) -> Swarm<B> {
            self.0
        }
    }
    pub struct Swarm<B> {
        b: B,
    }
    impl<B: NetworkBehaviour> Swarm<B> {
        pub fn dial(&mut self, a: Multiaddr) -> Result<(), DialError> {
            note(format!("dial {a}"));
            if script(|s| s.dial_fails) { Err(DialError) } else { Ok(()) }
        }
        pub fn behaviour_mut(&mut self) -> &mut B {
            &mut self.b
        }
        pub fn behaviour(&self) -> &B {
            &self.b
        }
        pub async fn select_next_some(&mut self) -> SwarmEvent {
            self.b.work().await;
            match script(|s| s.events.pop_front()) {
                Some(Heard::Connected(p)) => SwarmEvent::ConnectionEstablished { peer_id: PeerId(p), num_established: 1 },
                Some(Heard::Other(p)) if p % 2 == 0 => SwarmEvent::Dialing(PeerId(p)),
                Some(Heard::Other(p)) => SwarmEvent::ConnectionClosed { peer_id: PeerId(p) },
                // nothing more ever happens
                None => {
                    note("idle".into());
                    std::future::pending().await
                }
            }
        }
    }
    #[derive(Debug)]
    pub struct DialError;
    impl std::fmt::Display for DialError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("the dial fails")
        }
    }
    impl std::error::Error for DialError {}
    pub fn describe(m: &core::transport::Made, p: PeerId) -> String {
        let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
        format!("transport {} {} {} {} {}", m.psk.map(|k| hex(&k)).unwrap_or_default(), m.noise.map(|n| n.to_string()).unwrap_or_default(),
            m.mplex.map(|n| String::from_utf8_lossy(n).to_string()).unwrap_or_default(), m.timeout.map(|t| t.as_millis().to_string()).unwrap_or_default(), p)
    }
}

pub mod request_response {
    use super::*;
    use futures::{AsyncRead, AsyncWrite};
    use std::io;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    #[derive(Clone, Debug, PartialEq)]
    pub enum ProtocolSupport {
        Inbound,
        Outbound,
        Full,
    }
    #[derive(Clone, Debug, Default)]
    pub struct RequestResponseConfig(Option<std::time::Duration>);
    impl RequestResponseConfig {
        pub fn set_request_timeout(&mut self, t: std::time::Duration) -> &mut Self {
            self.0 = Some(t);
            self
        }
        pub fn set_connection_keep_alive(&mut self, _: std::time::Duration) -> &mut Self {
            self
        }
    }
    #[allow(async_fn_in_trait)]
    pub trait RequestResponseCodec {
        type Protocol: core::ProtocolName + Clone;
        type Request;
        type Response;
        async fn read_request<T>(&mut self, p: &Self::Protocol, io: &mut T) -> io::Result<Self::Request>
        where
            T: AsyncRead + Unpin + Send;
        async fn read_response<T>(&mut self, p: &Self::Protocol, io: &mut T) -> io::Result<Self::Response>
        where
            T: AsyncRead + Unpin + Send;
        async fn write_request<T>(&mut self, p: &Self::Protocol, io: &mut T, r: Self::Request) -> io::Result<()>
        where
            T: AsyncWrite + Unpin + Send;
        async fn write_response<T>(&mut self, p: &Self::Protocol, io: &mut T, r: Self::Response) -> io::Result<()>
        where
            T: AsyncWrite + Unpin + Send;
    }
    #[derive(Debug)]
    pub enum RequestResponseMessage<Q, A> {
        Request(Q),
        Response(A),
    }
    #[derive(Debug)]
    pub enum RequestResponseEvent<Q, A> {
        Message { peer: PeerId, message: RequestResponseMessage<Q, A> },
        OutboundFailure { peer: PeerId, error: String },
    }
    pub struct RequestResponse<C: RequestResponseCodec> {
        codec: C,
        protocols: Vec<(C::Protocol, ProtocolSupport)>,
        queue: VecDeque<(PeerId, C::Request)>,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct RequestId(u64);
    impl<C: RequestResponseCodec> RequestResponse<C> {
        pub fn new<I: IntoIterator<Item = (C::Protocol, ProtocolSupport)>>(codec: C, p: I, _: RequestResponseConfig) -> Self {
            RequestResponse { codec, protocols: p.into_iter().collect(), queue: VecDeque::new() }
        }
        pub fn send_request(&mut self, p: &PeerId, r: C::Request) -> RequestId {
            self.queue.push_back((*p, r));
            RequestId(0)
        }
    }
    impl<C: RequestResponseCodec> swarm::Part for RequestResponse<C> {
        type Event = RequestResponseEvent<C::Request, C::Response>;
        async fn next_event(&mut self) -> Option<Self::Event> {
            let (peer, r) = self.queue.pop_front()?;
            let p = self.protocols.iter().find(|p| p.1 != ProtocolSupport::Inbound).expect("HARNESS protocol").0.clone();
            note(format!("ask {peer} {}", String::from_utf8_lossy(core::ProtocolName::protocol_name(&p))));
            let mut io = Stream { from: script(|s| s.streams.pop_front()).unwrap_or_default(), ends: 0, waited: false, wrote: vec![], closed: false };
            if let Err(e) = self.codec.write_request(&p, &mut io, r).await {
                return Some(RequestResponseEvent::OutboundFailure { peer, error: e.to_string() });
            }
            note(format!("wrote {} closed {}", io.wrote.len(), io.closed));
            let a = self.codec.read_response(&p, &mut io).await;
            note(format!("answered {} left {}", a.is_ok(), io.from.len()));
            Some(match a {
                Ok(a) => RequestResponseEvent::Message { peer, message: RequestResponseMessage::Response(a) },
                Err(e) => RequestResponseEvent::OutboundFailure { peer, error: e.to_string() },
            })
        }
    }
    struct Stream {
        from: VecDeque<Bytes>,
        ends: usize,
        waited: bool,
        wrote: Vec<u8>,
        closed: bool,
    }
    impl AsyncRead for Stream {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
            match self.from.pop_front() {
                Some(Bytes::Some(mut b)) => {
                    let n = b.len().min(buf.len());
                    buf[..n].copy_from_slice(&b[..n]);
                    if n < b.len() {
                        let rest = b.split_off(n);
                        self.from.push_front(Bytes::Some(rest));
                    }
                    Poll::Ready(Ok(n))
                }
                Some(Bytes::Wait) if !self.waited => {
                    self.waited = true;
                    self.from.push_front(Bytes::Wait);
                    cx.waker().wake_by_ref();
                    Poll::Pending
                }
                Some(Bytes::Wait) => {
                    self.waited = false;
                    self.poll_read(cx, buf)
                }
                Some(Bytes::Fails) => Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionReset, "scripted"))),
                None => {
                    self.ends += 1;
                    if self.ends > 1000 {
                        panic!("read on and on after the end of the stream");
                    }
                    Poll::Ready(Ok(0))
                }
            }
        }
    }
    impl AsyncWrite for Stream {
        fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            self.wrote.extend_from_slice(buf);
            Poll::Ready(Ok(buf.len()))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_close(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.closed = true;
            Poll::Ready(Ok(()))
        }
    }
}
