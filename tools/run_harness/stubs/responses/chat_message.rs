#![allow(unused)]
use super::{identification, producer::Control, protocol, scope::Scope, Context};
use clibri::server;
use uuid::Uuid;

type BroadcastNews = (Vec<Uuid>, protocol::News);
type BroadcastAlarm = (Vec<Uuid>, protocol::Alarm);
type BroadcastChatDeepNote = (Vec<Uuid>, protocol::Chat::Deep::Note);
pub enum Response {
    Accept((protocol::Chat::Accepted, BroadcastNews, BroadcastAlarm)),
    Deny(protocol::Chat::Denied),
    Quiet((protocol::Pong, BroadcastChatDeepNote, Option<(Vec<Uuid>, protocol::News)>)),
}
pub async fn response<E: server::Error, C: server::Control<E>>(request: &protocol::Chat::Message, scope: &mut Scope<'_, E, C>) -> Result<Response, protocol::Chat::Denied> {
    let k = crate::user::enter("chat_message", format!("{:?}", request), scope).await;
    let u = scope.identification.uuid();
    if !k.ok() { return Err(crate::user::denied(k)); }
    Ok(match k.d(3) % 3 {
        0 => Response::Accept((crate::user::accepted(k), (crate::user::to(k, 4, scope.filter, u), crate::user::news(k)), (crate::user::to(k, 5, scope.filter, u), crate::user::alarm(k)))),
        1 => Response::Deny(crate::user::denied(k)),
        _ => Response::Quiet((crate::user::pong(k), (crate::user::to(k, 4, scope.filter, u), crate::user::note(k)), k.maybe(5, (crate::user::to(k, 5, scope.filter, u), crate::user::news(k))))),
    })
}
