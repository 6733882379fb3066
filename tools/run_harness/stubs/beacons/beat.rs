#![allow(unused)]
use super::{identification, producer::Control, protocol, scope::Scope, Context};
use clibri::server;
use uuid::Uuid;

pub async fn emit<E: server::Error, C: server::Control<E>>(beacon: &protocol::Beat, scope: &mut Scope<'_, E, C>) -> Result<(), String> {
    let k = crate::user::enter("beat", format!("{:?}", beacon), scope).await;
    if k.ok() { Ok(()) } else { Err(String::from("user")) }
}
