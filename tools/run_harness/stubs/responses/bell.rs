#![allow(unused)]
use super::{identification, producer::Control, protocol, scope::Scope, Context};
use clibri::server;
use uuid::Uuid;

pub enum Response { Ring((protocol::Pong, (Vec<Uuid>, protocol::News), Option<(Vec<Uuid>, protocol::Alarm)>)) }
pub async fn response<E: server::Error, C: server::Control<E>>(request: &protocol::Bell, scope: &mut Scope<'_, E, C>) -> Result<Response, protocol::Fault> {
    let k = crate::user::enter("bell", format!("{:?}", request), scope).await;
    let u = scope.identification.uuid();
    if !k.ok() { return Err(crate::user::fault(k)); }
    Ok(Response::Ring((crate::user::pong(k), (crate::user::to(k, 4, scope.filter, u), crate::user::news(k)), k.maybe(5, (crate::user::to(k, 5, scope.filter, u), crate::user::alarm(k))))))
}
