//! The modules of apps/wasm/mvp, but for those that talk to the peer to peer network (libp2p is
//! not available).
#![allow(static_mut_refs)]
#[path = "/repo/apps/wasm/mvp/src/js_exports.rs"]
pub mod js_exports;
#[path = "/repo/apps/wasm/mvp/src/js_ffi.rs"]
mod js_ffi;
use js_ffi::*;
#[path = "/repo/apps/wasm/mvp/src/logger.rs"]
mod logger;
#[path = "/repo/apps/wasm/mvp/src/utils.rs"]
mod utils;
use utils::*;
#[path = "/repo/apps/wasm/mvp/src/event_emitter.rs"]
mod event_emitter;
#[path = "/repo/apps/wasm/mvp/src/frontier.rs"]
mod frontier;
#[path = "/repo/apps/wasm/mvp/src/payment.rs"]
pub mod payment;
mod pb {
    macro_rules! message {
        ($n:ident) => {
            pub struct $n;
            impl protobuf::Message for $n {
                fn write_to_bytes(&self) -> protobuf::Result<Vec<u8>> {
                    Ok(vec![])
                }
                fn parse_from_bytes(_: &[u8]) -> protobuf::Result<Self> {
                    Ok($n)
                }
            }
        };
    }
    pub mod requests {
        message!(ConnectRequest);
    }
    pub mod responses {
        message!(CommonResponse);
    }
}
async fn connect_async(_: &pb::requests::ConnectRequest) -> anyhow::Result<pb::responses::CommonResponse> {
    anyhow::bail!("no peer to peer network")
}
