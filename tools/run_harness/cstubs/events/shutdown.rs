use super::{Consumer, ConsumerError, Context};
use clibri::client;
pub async fn handler<E: client::Error>(error: Option<ConsumerError<E>>, context: &mut Context, consumer: Consumer<E>) { crate::user::call(format!("shutdown {:?}", error.as_ref().map(crate::user::kind))); }
