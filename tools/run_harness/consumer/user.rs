// What the handlers of the user do here: they write down what they are given.
use crate::consumer::{protocol, ConsumerError};
use clibri::client;
use std::cell::RefCell;

#[derive(Default)]
pub struct World { pub calls: Vec<String>, pub out: Vec<String>, pub slots: Vec<Option<String>>, pub fail: bool, pub again: bool, pub feed: Option<crate::Feed>, pub listens: usize, pub end: Option<tokio::sync::oneshot::Sender<bool>> }
thread_local! { pub static W: RefCell<World> = RefCell::new(World::default()); }
pub fn call(s: String) { W.with(|w| w.borrow_mut().calls.push(s)); }
pub fn kind<E: client::Error>(e: &ConsumerError<E>) -> String { format!("{:?}", e).chars().take_while(|c| c.is_alphanumeric()).collect() }
