#![allow(unused)]
use super::{identification, producer::Control, protocol, scope::Scope, Context};
use clibri::server;
use uuid::Uuid;

pub async fn response<E: server::Error, C: server::Control<E>>(request: &protocol::Ping, scope: &mut Scope<'_, E, C>) -> Result<protocol::Pong, protocol::Fault> {
    let k = crate::user::enter("ping", format!("{:?}", request), scope).await;
    if k.ok() { Ok(crate::user::pong(k)) } else { Err(crate::user::fault(k)) }
}
