use super::Context;
pub async fn handler(timeout: u64, context: &mut Context) -> bool { crate::user::call(format!("reconnect {}", timeout)); crate::user::W.with(|w| w.borrow().again) }
