#![allow(unused)]
use super::{producer::Control, Context};
use clibri::server;
pub async fn emit<E: server::Error, C: server::Control<E> + Send + Clone>(context: &mut Context, control: &Control<E, C>) -> Result<(), String> {
    crate::user::call(String::from("shutdown"), None, None);
    if crate::user::life().shut_err { return Err(String::from("user")); }
    Ok(())
}
