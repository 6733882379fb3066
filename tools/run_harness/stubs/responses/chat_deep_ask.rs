#![allow(unused)]
use super::{identification, producer::Control, protocol, scope::Scope, Context};
use clibri::server;
use uuid::Uuid;

pub enum Response { Full(protocol::Chat::Deep::Answer), Empty(protocol::Pong) }
pub async fn response<E: server::Error, C: server::Control<E>>(request: &protocol::Chat::Deep::Ask, scope: &mut Scope<'_, E, C>) -> Result<Response, protocol::Fault> {
    let k = crate::user::enter("chat_deep_ask", format!("{:?}", request), scope).await;
    if !k.ok() { return Err(crate::user::fault(k)); }
    Ok(if k.d(3) % 2 == 0 { Response::Full(crate::user::answer(k)) } else { Response::Empty(crate::user::pong(k)) })
}
