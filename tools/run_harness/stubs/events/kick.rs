#![allow(unused)]
use super::{identification, producer::Control, protocol, scope::AnonymousScope, Context};
use clibri::server;
use uuid::Uuid;
type BroadcastNews = (Vec<Uuid>, protocol::News);
pub async fn emit<E: server::Error, C: server::Control<E>>(event: protocol::Kick, scope: &mut AnonymousScope<'_, E, C>) -> Result<BroadcastNews, String> {
    let k = crate::user::call(format!("kick {:?}", event), None, Some(scope.filter));
    if k.d(1) % 3 == 0 { scope.deferred(Box::pin(async move { crate::user::log(crate::user::Ev::Deferred) })); }
    if !k.ok() { return Err(String::from("user")); }
    Ok((crate::user::to(k, 4, scope.filter, Uuid::from_u128(7)), crate::user::news(k)))
}
