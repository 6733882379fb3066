use super::{protocol, Consumer, Context};
use clibri::client;
pub async fn handler<E: client::Error>(event: protocol::Alarm, context: &mut Context, consumer: Consumer<E>) { crate::user::call(format!("alarm {:?}", event)); }
