    // a packet without the time of its creation
    pub uninterp spec fn vx_body(b: Seq<u8>) -> Seq<u8>;

    // ---- what a producer does to its surroundings, in order
    pub enum VxEv {
        Send(Option<Uuid>, Seq<u8>),   // bytes given to the server for one consumer (None: for all)
        Disc(Uuid),                    // the server is asked to drop a consumer
        Call(VxCall),                  // a function of the user is called
        Deferred,                      // a deferred function of the user runs
        Observe, Serve, Down,          // the server is asked for its events, to listen, to stop
        Cancel(int),                   // a token is cancelled
        Ask(bool),                     // a shutdown is asked for; true: an answer is waited for
        Wait(int),                     // the answer with this number is waited for
        Got(VxIn),                     // the producer takes something out of one of its channels
    }
    pub struct VxWorld { pub ghost log: Seq<VxEv> }
    // the surroundings are arbitrary: what they answer may depend on everything that happened before
    pub uninterp spec fn vx_ctl_ok(l: Seq<VxEv>) -> bool;          // the server accepted the last event
    pub uninterp spec fn vx_user(l: Seq<VxEv>) -> Seq<VxEv>;       // what the user's function called last did, in turn
    pub uninterp spec fn vx_user_ok(l: Seq<VxEv>) -> bool;         // it returned Ok
    pub uninterp spec fn vx_defers(l: Seq<VxEv>) -> bool;          // it left a deferred function behind

    // what comes out of a channel, as the log has it
    pub trait VxAsk { spec fn vx_waits(&self) -> bool; }
    impl VxAsk for Option<tokio::sync::oneshot::Sender<()>> { open spec fn vx_waits(&self) -> bool { *self is Some } }
    impl VxCame for Option<tokio::sync::oneshot::Sender<()>> { open spec fn vx_in(&self) -> VxIn { VxIn::Asked(*self is Some) } }
    pub uninterp spec fn vx_sent<T>(c: tokio::sync::mpsc::Sender<T>, t: T) -> bool;
    #[verifier::external_body]
    pub fn vx_dropped<T>(t: T) { }
    pub trait VxCame { spec fn vx_in(&self) -> VxIn; }
    // which arm of a select! goes on
    #[verifier::external_body]
    pub fn vx_choice() -> (r: u8) { unimplemented!() }
    pub fn vx_taken<T>(x: Option<T>) -> (r: T) requires x is Some ensures r == x->0 { match x { Some(v) => v, None => unreached() } }

    // a deferred function of the user
    #[verifier::external_body]
    pub struct VxDeferred { }
    impl VxDeferred {
        #[verifier::external_body]
        pub fn vx_await(self, Tracked(vx_w): Tracked<&mut VxWorld>) ensures final(vx_w).log == vx_user(old(vx_w).log.push(VxEv::Deferred)) { unimplemented!() }
    }

    pub uninterp spec fn vx_told<T>(c: tokio::sync::oneshot::Sender<T>, t: T) -> bool;
    // nobody waits any more
    pub uninterp spec fn vx_gone<T>(c: tokio::sync::oneshot::Sender<T>) -> bool;
    pub uninterp spec fn vx_seen<T>(t: T) -> bool;
    // a message that was put into a channel
    pub uninterp spec fn vx_put<T>(c: tokio::sync::mpsc::UnboundedSender<T>, t: T) -> bool;
}

pub mod uuid {
    use vstd::prelude::*;
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub struct Uuid { pub v: u128 }
}

pub mod tokio { pub mod sync {
    use vstd::prelude::*;
    use crate::vx::*;
    #[verifier::external_body]
    pub struct CancellationToken { x: u8 }
    impl CancellationToken {
        #[verifier::external_body]
        pub fn new() -> Self { unimplemented!() }
        pub uninterp spec fn id(&self) -> int;
        #[verifier::external_body]
        pub fn child_token(&self) -> Self { unimplemented!() }
        #[verifier::external_body]
        pub fn cancel(&self, Tracked(vx_w): Tracked<&mut VxWorld>) ensures final(vx_w).log == old(vx_w).log.push(vx_cancels(self.id())) { unimplemented!() }
        #[verifier::external_body]
        pub fn cancelled(&self, Tracked(vx_w): Tracked<&mut VxWorld>) ensures final(vx_w).log == old(vx_w).log.push(VxEv::Got(VxIn::End)) { unimplemented!() }
    }
    pub mod oneshot {
        use vstd::prelude::*;
        use crate::vx::*;
        #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Sender<T> { t: std::marker::PhantomData<T> }
        #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Receiver<T> { t: std::marker::PhantomData<T> }
        pub struct RecvError { pub x: u8 }
        impl<T> Sender<T> {
            pub uninterp spec fn id(&self) -> int;
            #[verifier::external_body]
            pub fn send(self, t: T) -> (r: Result<(), T>) ensures r is Ok ==> vx_told(self, t), r is Err ==> vx_gone(self) { unimplemented!() }
        }
        impl<T> Receiver<T> {
            pub uninterp spec fn id(&self) -> int;
            #[verifier::external_body]
            pub fn vx_await(self, Tracked(vx_w): Tracked<&mut VxWorld>) -> (r: Result<T, RecvError>) ensures final(vx_w).log == old(vx_w).log.push(VxEv::Wait(self.id())), r is Ok <==> vx_ctl_ok(final(vx_w).log) { unimplemented!() }
        }
        #[verifier::external_body]
        pub fn channel<T>() -> (r: (Sender<T>, Receiver<T>)) ensures r.0.id() == r.1.id() { unimplemented!() }
    }
    pub mod mpsc {
    use vstd::prelude::*;
    use crate::vx::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Sender<T> { t: std::marker::PhantomData<T> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Receiver<T> { t: std::marker::PhantomData<T> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct UnboundedReceiver<T> { t: std::marker::PhantomData<T> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct UnboundedSender<T> { t: std::marker::PhantomData<T> }
    pub mod error { pub struct SendError<T>(pub T); }
    #[verifier::external_body]
    pub fn channel<T>(n: usize) -> (r: (Sender<T>, Receiver<T>)) { unimplemented!() }
    impl<T: VxAsk> Sender<T> {
        #[verifier::external_body]
        pub fn send(&self, t: T, Tracked(vx_w): Tracked<&mut VxWorld>) -> (r: Result<(), error::SendError<T>>)
            ensures final(vx_w).log == old(vx_w).log.push(VxEv::Ask(t.vx_waits())), r is Ok <==> vx_ctl_ok(final(vx_w).log), r is Ok ==> vx_sent(*self, t), vx_seen(t) { unimplemented!() }
    }
    impl<T: VxCame> Receiver<T> {
        #[verifier::external_body]
        pub fn recv(&mut self, Tracked(vx_w): Tracked<&mut VxWorld>) -> (r: Option<T>)
            ensures final(vx_w).log == old(vx_w).log.push(VxEv::Got(match r { Some(t) => t.vx_in(), None => VxIn::End })), vx_seen(r) { unimplemented!() }
    }
    // what comes out of a channel is arbitrary: the two ends are not tied to each other
    #[verifier::external_body]
    pub fn unbounded_channel<T>() -> (r: (UnboundedSender<T>, UnboundedReceiver<T>)) { unimplemented!() }
    impl<T: VxCame> UnboundedReceiver<T> {
        #[verifier::external_body]
        pub fn recv(&mut self, Tracked(vx_w): Tracked<&mut VxWorld>) -> (r: Option<T>)
            ensures final(vx_w).log == old(vx_w).log.push(VxEv::Got(match r { Some(t) => t.vx_in(), None => VxIn::End })) { unimplemented!() }
    }
    impl<T> UnboundedSender<T> {
        #[verifier::external_body]
        pub fn send(&self, t: T) -> (r: Result<(), error::SendError<T>>) ensures r is Ok ==> vx_put(*self, t) { unimplemented!() }
    }
} } }

pub mod clibri {
    pub mod env { pub mod logs { pub mod targets { } } }
    pub mod server {
        use vstd::prelude::*;
        use crate::vx::*;
        pub trait Error: Sized { }
        use crate::tokio::sync::mpsc::UnboundedReceiver;
        pub trait Impl<E: Error, C: Control<E>>: Sized {
            fn listen(&mut self, Tracked(vx_w): Tracked<&mut VxWorld>) -> (r: Result<(), E>)
                ensures final(vx_w).log == old(vx_w).log.push(VxEv::Serve), r is Ok <==> vx_ctl_ok(final(vx_w).log);
            fn observer(&mut self, Tracked(vx_w): Tracked<&mut VxWorld>) -> (r: Result<UnboundedReceiver<Events<E>>, E>)
                ensures final(vx_w).log == old(vx_w).log.push(VxEv::Observe), r is Ok <==> vx_ctl_ok(final(vx_w).log);
            fn control(&self) -> C;
        }
        pub enum Events<E: Error> { Ready, Shutdown, Connected(Uuid), Disconnected(Uuid), Received(Uuid, Vec<u8>), Error(Option<Uuid>, String), ConnectionError(Option<Uuid>, E), ServerError(E) }
        pub trait Control<E: Error>: Sized + Clone + Send {
            fn send(&self, buffer: Vec<u8>, uuid: Option<Uuid>, Tracked(vx_w): Tracked<&mut VxWorld>) -> (r: Result<(), E>)
                ensures final(vx_w).log == old(vx_w).log.push(VxEv::Send(uuid, vx_body(buffer@))), r is Ok <==> vx_ctl_ok(final(vx_w).log);
            fn shutdown(&self, Tracked(vx_w): Tracked<&mut VxWorld>) -> (r: Result<(), E>)
                ensures final(vx_w).log == old(vx_w).log.push(VxEv::Down), r is Ok <==> vx_ctl_ok(final(vx_w).log);
            fn disconnect(&self, uuid: Uuid, Tracked(vx_w): Tracked<&mut VxWorld>) -> (r: Result<(), E>)
                ensures final(vx_w).log == old(vx_w).log.push(VxEv::Disc(uuid)), r is Ok <==> vx_ctl_ok(final(vx_w).log);
        }
    }
}

pub mod context { pub struct Context { pub x: u8 } }
