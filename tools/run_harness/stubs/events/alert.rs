#![allow(unused)]
use super::{identification, producer::Control, protocol, scope::AnonymousScope, Context};
use clibri::server;
use uuid::Uuid;
type BroadcastNews = Option<(Vec<Uuid>, protocol::News)>;
type BroadcastAlarm = (Vec<Uuid>, protocol::Alarm);
pub async fn emit<E: server::Error, C: server::Control<E>>(event: protocol::Alert, scope: &mut AnonymousScope<'_, E, C>) -> Result<(BroadcastNews, BroadcastAlarm), String> {
    let k = crate::user::call(format!("alert {:?}", event), None, Some(scope.filter));
    if k.d(1) % 3 == 0 { scope.deferred(Box::pin(async move { crate::user::log(crate::user::Ev::Deferred) })); }
    if !k.ok() { return Err(String::from("user")); }
    let u = Uuid::from_u128(7);
    Ok((k.maybe(4, (crate::user::to(k, 4, scope.filter, u), crate::user::news(k))), (crate::user::to(k, 5, scope.filter, u), crate::user::alarm(k))))
}
