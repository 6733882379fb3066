#![allow(unused)]
use super::{identification, producer::Control, Context, ProducerError};
use clibri::server;
use uuid::Uuid;
pub async fn emit<E: server::Error, C: server::Control<E> + Send + Clone>(error: ProducerError<E>, uuid: Option<Uuid>, context: &mut Context, identification: Option<&identification::Identification>, control: &Control<E, C>) -> Result<(), String> {
    let e = match error {
        ProducerError::ServerError(_) => String::from("ServerError"),
        ProducerError::ConnectionError(_) => String::from("ConnectionError"),
        ProducerError::ConsumerError(_) => String::from("ConsumerError"),
        ProducerError::NotConfirmedConnection => String::from("NotConfirmedConnection"),
        ProducerError::EventEmitterError(_) => String::from("EventEmitterError"),
        ProducerError::BeaconEmitterError(_) => String::from("BeaconEmitterError"),
        ProducerError::ResponsingError(_) => String::from("ResponsingError"),
        ProducerError::NoConsumerKey(u) => format!("NoConsumerKey {}", u),
        ProducerError::NoAssignedConsumer(u) => format!("NoAssignedConsumer {}", u),
        _ => String::from("other"),
    };
    let k = crate::user::call(format!("error {} {:?}", e, uuid), identification, None);
    if k.fatal() || crate::user::life().fatal { Err(String::from("user")) } else { Ok(()) }
}
