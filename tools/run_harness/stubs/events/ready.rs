#![allow(unused)]
use super::{producer::Control, Context};
use clibri::server;
pub async fn emit<E: server::Error, C: server::Control<E> + Send + Clone>(context: &mut Context, control: &Control<E, C>) -> Result<(), String> {
    let k = crate::user::call(String::from("ready"), None, None);
    crate::user::ready(control.events.clone());
    let c = control.clone();
    crate::user::asks(Box::new(move |wait| { let c = c.clone(); Box::pin(async move { c.shutdown(wait).await.is_ok() }) }));
    if crate::user::life().ready_err { return Err(String::from("user")); }
    Ok(())
}
