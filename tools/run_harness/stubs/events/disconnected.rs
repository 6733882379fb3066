#![allow(unused)]
use super::{identification, producer::Control, protocol, scope::Scope, Context};
use clibri::server;
use uuid::Uuid;

type BroadcastNews = (Vec<Uuid>, protocol::News);
type BroadcastAlarm = Option<(Vec<Uuid>, protocol::Alarm)>;
pub async fn emit<E: server::Error, C: server::Control<E>>(scope: &mut Scope<'_, E, C>) -> Result<(BroadcastNews, BroadcastAlarm), String> {
    let k = crate::user::enter("disconnected", String::new(), scope).await;
    let u = scope.identification.uuid();
    if !k.ok() { return Err(String::from("user")); }
    Ok(((crate::user::to(k, 4, scope.filter, u), crate::user::news(k)), k.maybe(5, (crate::user::to(k, 5, scope.filter, u), crate::user::alarm(k)))))
}
