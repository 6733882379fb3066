use super::{protocol, Consumer, Context};
use clibri::client;
pub async fn handler<E: client::Error>(event: protocol::Chat::Deep::Note, context: &mut Context, consumer: Consumer<E>) { crate::user::call(format!("chat_deep_note {:?}", event)); }
