#![allow(unused)]
use super::{identification, producer::Control, protocol, scope::Scope, Context};
use clibri::server;
use uuid::Uuid;

type BroadcastAlarm = Option<(Vec<Uuid>, protocol::Alarm)>;
pub async fn emit<E: server::Error, C: server::Control<E>>(scope: &mut Scope<'_, E, C>) -> Result<BroadcastAlarm, String> {
    let k = crate::user::enter("connected", String::new(), scope).await;
    if !k.ok() { return Err(String::from("user")); }
    Ok(k.maybe(4, (crate::user::to(k, 4, scope.filter, scope.identification.uuid()), crate::user::alarm(k))))
}
