    // a packet without the time of its creation
    pub uninterp spec fn vx_body(b: Seq<u8>) -> Seq<u8>;
    pub broadcast axiom fn vx_disp_str(s: &'static str) ensures #[trigger] vx_disp(&s) == s@;
    pub broadcast axiom fn vx_disp_uuid(u: Uuid) ensures #[trigger] vx_disp(&u) == vx_utext(u);
    pub uninterp spec fn vx_utext(u: Uuid) -> Seq<char>;
    pub uninterp spec fn vx_uuid(s: Seq<char>) -> Option<Uuid>;

    // ---- what a task of a consumer does, in order
    pub struct VxWorld { pub ghost log: Seq<VxEv> }
    pub trait VxLog { spec fn vx_val(&self) -> VxVal; }
    // the surroundings are arbitrary: what they answer may depend on everything that happened before
    pub uninterp spec fn vx_ok(l: Seq<VxEv>) -> bool;                    // the last event succeeded
    pub uninterp spec fn vx_came<T>(l: Seq<VxEv>) -> Option<T>;          // what came through the channel waited for last
    pub uninterp spec fn vx_user(l: Seq<VxEv>) -> Seq<VxEv>;             // what the user's function called last did, in turn
    pub trait VxToVec<T> { spec fn vx_sl(&self) -> Seq<T>; fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.vx_sl(); }
    impl VxToVec<u8> for [u8] { open spec fn vx_sl(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() } }
    // one of the arms of a select! completes first
    #[verifier::external_body]
    pub fn vx_choice() -> (r: u8) { unimplemented!() }
}

pub mod uuid {
    use vstd::prelude::*;
    use crate::vx::*;
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub struct Uuid { pub v: u128 }
    pub struct Error { pub x: u8 }
    impl Uuid {
        #[verifier::external_body]
        pub fn from_str(s: &str) -> (r: Result<Uuid, Error>) ensures match r { Ok(u) => vx_uuid(s@) == Some(u), Err(_) => vx_uuid(s@) is None } { unimplemented!() }
    }
}

pub mod tokio {
    pub mod time {
        use vstd::prelude::*;
        use crate::vx::*;
        pub struct Duration { pub ms: u64 }
        impl Duration { pub fn from_millis(ms: u64) -> (r: Duration) ensures r.ms == ms { Duration { ms } } }
        #[verifier::external_body]
        pub fn sleep(d: Duration, Tracked(vx_w): Tracked<&mut VxWorld>) ensures final(vx_w).log == old(vx_w).log { unimplemented!() }
        // the pause before a connection is made again
        #[verifier::external_body]
        pub fn vx_pause(d: Duration, Tracked(vx_w): Tracked<&mut VxWorld>) ensures final(vx_w).log == old(vx_w).log.push(VxEv::Sleep(d.ms)) { unimplemented!() }
    }
    pub mod sync {
    use vstd::prelude::*;
    use crate::vx::*;
    #[verifier::external_body]
    pub struct CancellationToken { x: u8 }
    impl CancellationToken {
        #[verifier::external_body]
        pub fn new() -> Self { unimplemented!() }
        #[verifier::external_body]
        pub fn cancel(&self, Tracked(vx_w): Tracked<&mut VxWorld>) ensures final(vx_w).log == old(vx_w).log.push(VxEv::Cancel(self.id())) { unimplemented!() }
        pub uninterp spec fn id(&self) -> int;
        #[verifier::external_body]
        pub fn cancelled(&self, Tracked(vx_w): Tracked<&mut VxWorld>) ensures final(vx_w).log == old(vx_w).log { unimplemented!() }
    }
    pub mod oneshot {
        use vstd::prelude::*;
        use crate::vx::*;
        #[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Sender<T> { t: std::marker::PhantomData<T> }
        #[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Receiver<T> { t: std::marker::PhantomData<T> }
        pub struct RecvError { pub x: u8 }
        impl<T> Sender<T> { pub uninterp spec fn id(&self) -> int; }
        impl<T: VxLog> Sender<T> {
            #[verifier::external_body]
            pub fn send(self, t: T, Tracked(vx_w): Tracked<&mut VxWorld>) -> (r: Result<(), T>)
                ensures final(vx_w).log == old(vx_w).log.push(VxEv::One(self.id(), t.vx_val())), r is Ok <==> vx_ok(final(vx_w).log) { unimplemented!() }
        }
        impl<T> Receiver<T> {
            pub uninterp spec fn id(&self) -> int;
            #[verifier::external_body]
            pub fn vx_await(self, Tracked(vx_w): Tracked<&mut VxWorld>) -> (r: Result<T, RecvError>)
                ensures final(vx_w).log == old(vx_w).log.push(VxEv::Wait(self.id())), match r { Ok(t) => vx_came::<T>(final(vx_w).log) == Some(t), Err(_) => vx_came::<T>(final(vx_w).log) is None } { unimplemented!() }
        }
        #[verifier::external_body]
        pub fn channel<T>(Tracked(vx_w): Tracked<&mut VxWorld>) -> (r: (Sender<T>, Receiver<T>))
            ensures final(vx_w).log == old(vx_w).log.push(VxEv::Chan), r.0.id() == old(vx_w).log.len(), r.1.id() == old(vx_w).log.len() { unimplemented!() }
    }
    pub mod mpsc {
        use vstd::prelude::*;
        use crate::vx::*;
        #[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Sender<T> { t: std::marker::PhantomData<T> }
        #[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Receiver<T> { t: std::marker::PhantomData<T> }
        #[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct UnboundedSender<T> { t: std::marker::PhantomData<T> }
        #[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct UnboundedReceiver<T> { t: std::marker::PhantomData<T> }
        pub struct SendError<T> { pub t: T }
        impl<T: VxLog> Sender<T> {
            #[verifier::external_body]
            pub fn send(&self, t: T, Tracked(vx_w): Tracked<&mut VxWorld>) -> (r: Result<(), SendError<T>>)
                ensures final(vx_w).log == old(vx_w).log.push(VxEv::Put(t.vx_val())), r is Ok <==> vx_ok(final(vx_w).log) { unimplemented!() }
        }
        // what comes out of a channel is arbitrary in any case: the two ends are not tied to each other
        #[verifier::external_body]
        pub fn channel<T>(n: usize) -> (r: (Sender<T>, Receiver<T>)) { unimplemented!() }
        #[verifier::external_body]
        pub fn unbounded_channel<T>() -> (r: (UnboundedSender<T>, UnboundedReceiver<T>)) { unimplemented!() }
        impl<T: VxLog> Receiver<T> {
            #[verifier::external_body]
            pub fn recv(&mut self, Tracked(vx_w): Tracked<&mut VxWorld>) -> (r: Option<T>)
                ensures final(vx_w).log == (match r { Some(t) => old(vx_w).log.push(VxEv::Got(t.vx_val())), None => old(vx_w).log }) { unimplemented!() }
        }
        impl<T: VxLog> UnboundedSender<T> {
            #[verifier::external_body]
            pub fn send(&self, t: T, Tracked(vx_w): Tracked<&mut VxWorld>) -> (r: Result<(), SendError<T>>)
                ensures final(vx_w).log == old(vx_w).log.push(VxEv::Put(t.vx_val())), r is Ok <==> vx_ok(final(vx_w).log) { unimplemented!() }
        }
        impl<T: VxLog> UnboundedReceiver<T> {
            #[verifier::external_body]
            pub fn recv(&mut self, Tracked(vx_w): Tracked<&mut VxWorld>) -> (r: Option<T>)
                ensures final(vx_w).log == (match r { Some(t) => old(vx_w).log.push(VxEv::Got(t.vx_val())), None => old(vx_w).log }) { unimplemented!() }
        }
    }
} }

pub mod clibri {
    pub mod env { pub mod logs { pub mod targets { } use vstd::prelude::*; #[verifier::external_body] pub fn init() { unimplemented!() } } }
    pub mod client {
        use vstd::prelude::*;
        use crate::vx::*;
        pub trait Error: Sized { }
        pub struct SocketAddr { pub x: u8 }
        pub enum Message { Text(String), Binary(Vec<u8>), Ping(Vec<u8>), Pong(Vec<u8>) }
        pub enum Event<E: Error> { Connected(SocketAddr), Disconnected, Error(E), Message(Message) }
        pub open spec fn vx_msg_val(m: Message) -> VxVal { match m { Message::Binary(b) => VxVal::Bytes(vx_body(b@)), _ => VxVal::NoBytes } }
        pub trait Control<E: Error>: Sized {
            fn send(&self, msg: Message, Tracked(vx_w): Tracked<&mut VxWorld>) -> (r: Result<(), E>)
                ensures final(vx_w).log == old(vx_w).log.push(VxEv::Put(vx_msg_val(msg))), r is Ok <==> vx_ok(final(vx_w).log);
            fn shutdown(&self, Tracked(vx_w): Tracked<&mut VxWorld>) -> (r: Result<(), E>)
                ensures final(vx_w).log == old(vx_w).log.push(VxEv::Down);
        }
        // a connection: Left is its end
        pub trait Impl<E: Error, Ctrl>: Sized {
            fn connect(&mut self, Tracked(vx_w): Tracked<&mut VxWorld>) -> (r: Result<(), E>)
                ensures final(vx_w).log == old(vx_w).log.push(VxEv::Left(r is Ok));
            fn observer(&mut self, Tracked(vx_w): Tracked<&mut VxWorld>) -> (r: Result<crate::tokio::sync::mpsc::UnboundedReceiver<Event<E>>, E>)
                ensures final(vx_w).log == old(vx_w).log.push(VxEv::Watch), r is Ok <==> vx_ok(final(vx_w).log);
            fn control(&self) -> (r: Ctrl);
        }
    }
}

pub mod context { pub struct Context { pub x: u8 } }
