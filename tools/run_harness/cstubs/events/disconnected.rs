use super::{Consumer, Context};
use clibri::client;
pub async fn handler<E: client::Error>(context: &mut Context, mut consumer: Consumer<E>) { crate::user::call(String::from("disconnected")); }
