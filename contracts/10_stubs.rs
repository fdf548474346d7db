// Stand-ins for the libraries the emulator uses. Everything marked
// external_body / assume_specification in this file is the trusted base of
// the proofs: it states what the library does, not what the emulator does.
pub mod stubs {
    use vstd::prelude::*;
    use vstd::multiset::Multiset;
    pub mod vx_traits {
        pub use super::{VClone, VCopied, VDefault, VFrom, VInto, VNum, VSeq, VTry, VTryFrom, VTryInto, VResid, VExt};
        pub use super::bytes::{Buf, BufMut};
        pub use super::pdl_runtime::Packet as VxPacketTrait;
        pub use super::VMsg;
        pub use super::HashMap;
        pub use super::time::Instant;
    }
    verus! {
    // a 64-bit platform
    global size_of usize == 8;
    /// `[x; N]`
    #[verifier::external_body]
    pub fn vfill<T: Copy, const N: usize>(x: T) -> (r: [T; N])
        ensures r@.len() == N, forall|i: int| 0 <= i < N ==> #[trigger] r[i] == x,
    { [x; N] }

    // ------------------------------------------------------------ the world

    /// A command sent to the event loop.
    pub ghost enum CmdV {
        Ranging(usize, u32),
        StopRanging(crate::MacAddress, u32),
        Uci(usize, Seq<u8>),
        Disconnect(usize),
        Other,
    }

    /// What a spawned task does. A packet sent after any delay is `delayed`.
    pub ghost enum Act {
        Send { chan: int, data: Seq<u8>, delayed: bool },
        Cmd { at: nat, cmd: CmdV },
    }

    /// A spawned task: the actions of one run of its body, repeated for ever
    /// when `periodic`. `len` is the time one run takes.
    pub ghost struct TaskV {
        pub periodic: bool,
        pub acts: Seq<Act>,
        pub len: nat,
    }

    /// Everything outside the emulator's own state.
    pub ghost struct WG {
        pub task: bool,
        pub periodic: bool,
        pub now: nat,
        pub acts: Seq<Act>,
        pub spawned: Multiset<TaskV>,
        pub nspawn: int,
        pub aborted: Set<int>,
        pub sent: Map<int, Seq<Seq<u8>>>,
        pub cmds: Seq<CmdV>,
        pub events: Seq<crate::PicaEvent>,
        pub replies: Map<int, core::result::Result<usize, crate::PicaCommandError>>,
        pub taken: Map<int, Seq<Seq<u8>>>,
        pub out: Map<int, Seq<Seq<u8>>>,
        pub files: Map<int, Seq<u8>>,
        pub nfile: int,
        pub nchan: int,
        /// Bytes read from and written to sockets.
        pub sock_in: Map<int, Seq<u8>>,
        pub sock_out: Map<int, Seq<u8>>,
        /// A file or a connection failed.
        pub io_err: bool,
        /// The packet sources that came to their end.
        pub ended: Set<int>,
    }

    pub struct World {
        pub g: Ghost<WG>,
    }

    pub open spec fn sent_on(g: WG, c: int) -> Seq<Seq<u8>> {
        if g.sent.dom().contains(c) { g.sent[c] } else { Seq::empty() }
    }
    pub open spec fn add_sent(g: WG, c: int, b: Seq<u8>) -> WG {
        WG { sent: g.sent.insert(c, sent_on(g, c).push(b)), ..g }
    }
    pub open spec fn add_task(g: WG, t: TaskV) -> WG {
        WG { spawned: g.spawned.insert(t), nspawn: g.nspawn + 1, ..g }
    }
    pub open spec fn add_abort(g: WG, id: int) -> WG {
        WG { aborted: g.aborted.insert(id), ..g }
    }
    pub open spec fn out_on(g: WG, c: int) -> Seq<Seq<u8>> {
        if g.out.dom().contains(c) { g.out[c] } else { Seq::empty() }
    }
    pub open spec fn taken_on(g: WG, c: int) -> Seq<Seq<u8>> {
        if g.taken.dom().contains(c) { g.taken[c] } else { Seq::empty() }
    }
    pub open spec fn file_of(g: WG, c: int) -> Seq<u8> {
        if g.files.dom().contains(c) { g.files[c] } else { Seq::empty() }
    }

    pub open spec fn with_file(g: WG, c: int, x: Seq<u8>) -> WG {
        WG { files: g.files.insert(c, x), ..g }
    }
    pub open spec fn in_of(g: WG, c: int) -> Seq<u8> {
        if g.sock_in.dom().contains(c) { g.sock_in[c] } else { Seq::empty() }
    }
    pub open spec fn out_of(g: WG, c: int) -> Seq<u8> {
        if g.sock_out.dom().contains(c) { g.sock_out[c] } else { Seq::empty() }
    }

    impl World {
        pub open spec fn view(&self) -> WG {
            self.g@
        }

        #[verifier::external_body]
        pub fn new_task(periodic: bool) -> (r: World)
            ensures
                r@.task,
                r@.periodic == periodic,
                r@.now == 0,
                r@.acts == Seq::<Act>::empty(),
        {
            unimplemented!()
        }
    }

    /// Work of the connection task (read_routine and write_routine under
    /// tokio's try_join): opaque, see the contracts of the two routines.
    #[verifier::external_body]
    pub fn spawn_opaque(w: &mut World) -> (r: tokio::task::JoinHandle<()>)
        ensures
            final(w)@ == old(w)@,
    {
        unimplemented!()
    }

    // -------------------------------------------------------------- channels

    /// A message that can be sent on a channel: how the world records it.
    pub trait VMsg: Sized {
        spec fn logged(self, chan: int, g: WG) -> WG;
    }
    impl VMsg for Vec<u8> {
        open spec fn logged(self, chan: int, g: WG) -> WG {
            if g.task {
                WG { acts: g.acts.push(Act::Send { chan, data: self@, delayed: g.now > 0 }), ..g }
            } else {
                add_sent(g, chan, self@)
            }
        }
    }
    pub open spec fn cmdv(c: crate::PicaCommand) -> CmdV {
        match c {
            crate::PicaCommand::Ranging(h, s) => CmdV::Ranging(h, s),
            crate::PicaCommand::StopRanging(m, s) => CmdV::StopRanging(m, s),
            crate::PicaCommand::UciPacket(h, p) => CmdV::Uci(h, p@),
            crate::PicaCommand::Disconnect(h) => CmdV::Disconnect(h),
            _ => CmdV::Other,
        }
    }
    impl VMsg for crate::PicaCommand {
        open spec fn logged(self, chan: int, g: WG) -> WG {
            if g.task {
                WG { acts: g.acts.push(Act::Cmd { at: g.now, cmd: cmdv(self) }), ..g }
            } else {
                WG { cmds: g.cmds.push(cmdv(self)), ..g }
            }
        }
    }
    impl VMsg for crate::PicaEvent {
        open spec fn logged(self, chan: int, g: WG) -> WG {
            WG { events: g.events.push(self), ..g }
        }
    }
    impl VMsg for core::result::Result<usize, crate::PicaCommandError> {
        open spec fn logged(self, chan: int, g: WG) -> WG {
            WG { replies: g.replies.insert(chan, self), ..g }
        }
    }

    pub mod tokio {
        use vstd::prelude::*;
        verus! {
        pub mod net {
            use vstd::prelude::*;
            verus! {
            pub mod tcp {
                use vstd::prelude::*;
                use super::super::super::{World, WG, in_of, out_of, anyhow};
                verus! {
                /// The bytes a client sends, in order.
                #[verifier::external_body]
                pub struct OwnedReadHalf { p: u8 }
                impl OwnedReadHalf {
                    pub uninterp spec fn sid(&self) -> int;
                    /// `read_exact(&mut v[a..b])`
                    #[verifier::external_body]
                    pub fn read_exact_into(&mut self, v: &mut Vec<u8>, a: usize, b: usize, w: &mut World) -> (r: core::result::Result<usize, anyhow::Error>)
                        requires a <= b <= old(v)@.len(),
                        ensures
                            final(self).sid() == old(self).sid(),
                            final(v)@.len() == old(v)@.len(),
                            forall|i: int| 0 <= i < a || b <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i],
                            r is Ok ==> final(w)@ == (WG { sock_in: old(w)@.sock_in.insert(old(self).sid(), in_of(old(w)@, old(self).sid()) + final(v)@.subrange(a as int, b as int)), ..old(w)@ }),
                    { unimplemented!() }
                    /// `read_exact(&mut v[a..])`
                    #[verifier::external_body]
                    pub fn read_exact_from(&mut self, v: &mut Vec<u8>, a: usize, w: &mut World) -> (r: core::result::Result<usize, anyhow::Error>)
                        requires a <= old(v)@.len(),
                        ensures
                            final(self).sid() == old(self).sid(),
                            final(v)@.len() == old(v)@.len(),
                            forall|i: int| 0 <= i < a ==> #[trigger] final(v)@[i] == old(v)@[i],
                            r is Ok ==> final(w)@ == (WG { sock_in: old(w)@.sock_in.insert(old(self).sid(), in_of(old(w)@, old(self).sid()) + final(v)@.subrange(a as int, final(v)@.len() as int)), ..old(w)@ }),
                    { unimplemented!() }
                }
                /// The bytes a client receives, in order.
                #[verifier::external_body]
                pub struct OwnedWriteHalf { p: u8 }
                impl OwnedWriteHalf {
                    pub uninterp spec fn sid(&self) -> int;
                    #[verifier::external_body]
                    pub fn write_all(&mut self, b: &Vec<u8>, w: &mut World) -> (r: core::result::Result<(), anyhow::Error>)
                        ensures
                            final(self).sid() == old(self).sid(),
                            r is Ok ==> final(w)@ == (WG { sock_out: old(w)@.sock_out.insert(old(self).sid(), out_of(old(w)@, old(self).sid()) + b@), ..old(w)@ }),
                    { unimplemented!() }
                }
                }
            }
            }
        }
        pub mod sync {
            use vstd::prelude::*;
            verus! {
            pub mod mpsc {
                use vstd::prelude::*;
                use super::super::super::{VMsg, World, WG, CmdV, VClone, taken_on};
                verus! {
                #[verifier::external_body]
                #[verifier::reject_recursive_types(T)]
                pub struct UnboundedSender<T> { p: core::marker::PhantomData<T> }
                #[verifier::external_body]
                #[verifier::reject_recursive_types(T)]
                pub struct UnboundedReceiver<T> { p: core::marker::PhantomData<T> }
                #[verifier::external_body]
                #[verifier::reject_recursive_types(T)]
                pub struct Sender<T> { p: core::marker::PhantomData<T> }
                #[verifier::external_body]
                #[verifier::reject_recursive_types(T)]
                pub struct Receiver<T> { p: core::marker::PhantomData<T> }
                #[verifier::external_body]
                #[derive(Debug)]
                pub struct SendError { p: u8 }

                impl<T> UnboundedSender<T> {
                    pub uninterp spec fn chan(&self) -> int;
                }
                impl<T> UnboundedReceiver<T> {
                    pub uninterp spec fn chan(&self) -> int;
                }
                impl<T> Sender<T> {
                    pub uninterp spec fn chan(&self) -> int;
                }
                impl<T: VMsg> UnboundedSender<T> {
                    /// The message is delivered when the receiver exists. A
                    /// task is only alive while its receiver is, see DESIGN.md.
                    #[verifier::external_body]
                    pub fn send(&self, t: T, w: &mut World) -> (r: core::result::Result<(), SendError>)
                        ensures
                            final(w)@ == t.logged(self.chan(), old(w)@),
                            old(w)@.task ==> r is Ok,
                    { unimplemented!() }
                }
                impl<T: VMsg> Sender<T> {
                    #[verifier::external_body]
                    pub fn send(&self, t: T, w: &mut World) -> (r: core::result::Result<(), SendError>)
                        ensures
                            final(w)@ == t.logged(self.chan(), old(w)@),
                            r is Ok,
                    { unimplemented!() }
                }
                impl<T> VClone for UnboundedSender<T> {
                    #[verifier::external_body]
                    fn vclone(&self) -> (r: Self) { unimplemented!() }
                }
                impl<T> VClone for Sender<T> {
                    #[verifier::external_body]
                    fn vclone(&self) -> (r: Self) { unimplemented!() }
                }
                impl UnboundedReceiver<Vec<u8>> {
                    /// The next packet sent to this receiver.
                    #[verifier::external_body]
                    pub fn recv(&mut self, w: &mut World) -> (r: Option<Vec<u8>>)
                        ensures
                            final(self).chan() == old(self).chan(),
                            r is None ==> final(w)@ == (WG { ended: old(w)@.ended.insert(old(self).chan()), ..old(w)@ }),
                            r matches Some(p) ==> final(w)@ == (WG { taken: old(w)@.taken.insert(old(self).chan(), taken_on(old(w)@, old(self).chan()).push(p@)), ..old(w)@ })
                                && (p@.len() >= 4),
                    { unimplemented!() }
                }
                impl Receiver<crate::PicaCommand> {
                    #[verifier::external_body]
                    pub fn recv(&mut self, w: &mut World) -> (r: Option<crate::PicaCommand>)
                        ensures
                            final(w)@ == old(w)@,
                    { unimplemented!() }
                }
                #[verifier::external_body]
                pub fn unbounded_channel<T>(w: &mut World) -> (r: (UnboundedSender<T>, UnboundedReceiver<T>))
                    ensures
                        r.0.chan() == r.1.chan(),
                        r.0.chan() == old(w)@.nchan,
                        final(w)@ == (WG { nchan: old(w)@.nchan + 1, ..old(w)@ }),
                { unimplemented!() }
                #[verifier::external_body]
                pub fn channel<T>(n: usize) -> (r: (Sender<T>, Receiver<T>))
                { unimplemented!() }
                }
            }
            pub mod oneshot {
                use vstd::prelude::*;
                use super::super::super::{VMsg, World};
                verus! {
                #[verifier::external_body]
                #[verifier::reject_recursive_types(T)]
                pub struct Sender<T> { p: core::marker::PhantomData<T> }
                impl<T> Sender<T> {
                    pub uninterp spec fn chan(&self) -> int;
                }
                impl<T: VMsg> Sender<T> {
                    #[verifier::external_body]
                    pub fn send(self, t: T, w: &mut World) -> (r: core::result::Result<(), T>)
                        ensures
                            final(w)@ == t.logged(self.chan(), old(w)@),
                    { unimplemented!() }
                }
                }
            }
            pub mod broadcast {
                use vstd::prelude::*;
                use super::super::super::{VMsg, World};
                verus! {
                #[verifier::external_body]
                #[verifier::reject_recursive_types(T)]
                pub struct Sender<T> { p: core::marker::PhantomData<T> }
                #[verifier::external_body]
                #[verifier::reject_recursive_types(T)]
                pub struct Receiver<T> { p: core::marker::PhantomData<T> }
                #[verifier::external_body]
                #[derive(Debug)]
                pub struct SendError { p: u8 }
                impl<T> Sender<T> {
                    pub uninterp spec fn chan(&self) -> int;
                    #[verifier::external_body]
                    pub fn subscribe(&self, w: &mut World) -> Receiver<T> { unimplemented!() }
                }
                impl<T: VMsg> Sender<T> {
                    #[verifier::external_body]
                    pub fn send(&self, t: T, w: &mut World) -> (r: core::result::Result<usize, SendError>)
                        ensures
                            final(w)@ == t.logged(self.chan(), old(w)@),
                    { unimplemented!() }
                }
                #[verifier::external_body]
                pub fn channel<T>(n: usize) -> (r: (Sender<T>, Receiver<T>))
                { unimplemented!() }
                }
            }
            }
        }
        pub mod task {
            use vstd::prelude::*;
            use super::super::{World, WG, TaskV, add_abort};
            verus! {
            #[verifier::external_body]
            #[verifier::reject_recursive_types(T)]
            pub struct JoinHandle<T> { p: core::marker::PhantomData<T> }
            impl<T> JoinHandle<T> {
                pub uninterp spec fn id(&self) -> int;
                pub uninterp spec fn task(&self) -> TaskV;
                #[verifier::external_body]
                pub fn abort(&self, w: &mut World)
                    ensures final(w)@ == add_abort(old(w)@, self.id()),
                { unimplemented!() }
            }
            }
        }
        pub mod time {
            use vstd::prelude::*;
            pub use super::super::time::Duration;
            use super::super::{World, WG};
            verus! {
            #[verifier::external_body]
            pub fn sleep(d: Duration, w: &mut World)
                requires old(w)@.task,
                ensures final(w)@ == (WG { now: old(w)@.now + d.ms(), ..old(w)@ }),
            { unimplemented!() }
            }
        }
        use super::{World, WG, TaskV, add_task};
        #[verifier::external_body]
        pub fn spawn_task(t: World, w: &mut World) -> (r: task::JoinHandle<()>)
            ensures
                final(w)@ == add_task(old(w)@, r.task()),
                r.task() == (TaskV { periodic: t@.periodic, acts: t@.acts, len: if t@.periodic { t@.now } else { 0 } }),
                r.id() == old(w)@.nspawn,
        { unimplemented!() }
        }
    }

    // ------------------------------------------------------- std replacements

    pub mod time {
        use vstd::prelude::*;
        use super::World;
        verus! {
        #[verifier::external_body]
        #[derive(Clone, Copy)]
        pub struct Duration { p: u8 }
        impl Duration {
            pub uninterp spec fn ms(&self) -> nat;
            #[verifier::external_body]
            pub fn from_millis(n: u64) -> (r: Duration)
                ensures r.ms() == n,
            { unimplemented!() }
            #[verifier::external_body]
            pub fn from_secs(n: u64) -> (r: Duration)
                ensures r.ms() == n * 1000,
            { unimplemented!() }
            #[verifier::external_body]
            pub fn as_micros(&self) -> (r: u128)
            { unimplemented!() }
        }
        #[verifier::external_body]
        #[derive(Clone, Copy)]
        pub struct Instant { p: u8 }
        impl Instant {
            #[verifier::external_body]
            pub fn now() -> (r: Instant) { unimplemented!() }
            #[verifier::external_body]
            pub fn elapsed(&self) -> (r: Duration) { unimplemented!() }
        }
        }
    }

    pub mod path {
        use vstd::prelude::*;
        use super::VClone;
        verus! {
        #[verifier::external_body]
        pub struct PathBuf { p: u8 }
        impl PathBuf {
            #[verifier::external_body]
            pub fn join(&self, s: String) -> PathBuf { unimplemented!() }
            #[verifier::external_body]
            pub fn as_path(&self) -> &PathBuf { unimplemented!() }
        }
        impl VClone for PathBuf {
            #[verifier::external_body]
            fn vclone(&self) -> (r: Self) { unimplemented!() }
        }
        }
    }

    pub mod io {
        use vstd::prelude::*;
        verus! {
        #[verifier::external_body]
        pub struct Error { p: u8 }
        pub type Result<T> = core::result::Result<T, Error>;
        }
    }

    pub mod fs {
        use vstd::prelude::*;
        use super::{World, WG, file_of, with_file};
        verus! {
        #[verifier::external_body]
        pub struct File { p: u8 }
        impl File {
            pub uninterp spec fn fid(&self) -> int;
            #[verifier::external_body]
            pub fn create<P>(path: P, w: &mut World) -> (r: super::io::Result<File>)
                ensures
                    r is Err ==> final(w)@ == (WG { io_err: true, ..old(w)@ }),
                    r matches Ok(f) ==> f.fid() == old(w)@.nfile
                        && final(w)@ == (WG { nfile: old(w)@.nfile + 1, files: old(w)@.files.insert(old(w)@.nfile, Seq::empty()), ..old(w)@ }),
            { unimplemented!() }
            /// A successful write is assumed to be complete (no short write).
            #[verifier::external_body]
            pub fn write<B: super::VBytes>(&mut self, b: B, w: &mut World) -> (r: super::io::Result<usize>)
                ensures
                    final(self).fid() == old(self).fid(),
                    r is Ok ==> final(w)@ == (WG { files: old(w)@.files.insert(old(self).fid(), file_of(old(w)@, old(self).fid()) + b.vbytes()), ..old(w)@ }),
                    r is Err ==> final(w)@ == (WG { files: final(w)@.files, io_err: true, ..old(w)@ })
                        && final(w)@.files.remove(old(self).fid()) == old(w)@.files.remove(old(self).fid()),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn write_all<B: super::VBytes>(&mut self, b: B, w: &mut World) -> (r: super::io::Result<()>)
                ensures
                    final(self).fid() == old(self).fid(),
                    r is Ok ==> final(w)@ == (WG { files: old(w)@.files.insert(old(self).fid(), file_of(old(w)@, old(self).fid()) + b.vbytes()), ..old(w)@ }),
                    r is Err ==> final(w)@ == (WG { files: final(w)@.files, io_err: true, ..old(w)@ })
                        && final(w)@.files.remove(old(self).fid()) == old(w)@.files.remove(old(self).fid()),
            { unimplemented!() }
        }
        }
    }

    /// Something that can be passed as `&[u8]`.
    pub trait VBytes {
        spec fn vbytes(&self) -> Seq<u8>;
    }
    impl<'a> VBytes for &'a [u8] {
        open spec fn vbytes(&self) -> Seq<u8> { (**self)@ }
    }
    impl<'a> VBytes for &'a Vec<u8> {
        open spec fn vbytes(&self) -> Seq<u8> { (**self)@ }
    }
    impl<'a, const N: usize> VBytes for &'a [u8; N] {
        open spec fn vbytes(&self) -> Seq<u8> { (**self)@ }
    }

    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Mutex<T> { p: core::marker::PhantomData<T> }
    #[verifier::external_body]
    #[derive(Debug)]
    pub struct PoisonError { p: u8 }
    impl Mutex<crate::Pica> {
        /// Every holder of the lock leaves the state well formed.
        #[verifier::external_body]
        pub fn lock(&self) -> (r: core::result::Result<crate::Pica, PoisonError>)
            ensures r is Ok,
        { unimplemented!() }
    }
    impl Mutex<fs::File> {
        pub uninterp spec fn fid(&self) -> int;
        #[verifier::external_body]
        pub fn new(f: fs::File) -> (r: Self)
            ensures r.fid() == f.fid(),
        { unimplemented!() }
        /// Poisoning needs a panic of another holder of the lock.
        #[verifier::external_body]
        pub fn lock(&self) -> (r: core::result::Result<fs::File, PoisonError>)
            ensures r is Ok, r->Ok_0.fid() == self.fid(),
        { unimplemented!() }
    }

    // The maps of the emulator.
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::reject_recursive_types(V)]
    pub struct HashMap<K, V> { p: core::marker::PhantomData<(K, V)> }

    impl<K, V> View for HashMap<K, V> {
        type V = Map<K, V>;
        uninterp spec fn view(&self) -> Map<K, V>;
    }

    impl<K, V> HashMap<K, V> {
        #[verifier::external_body]
        pub fn new() -> (r: Self)
            ensures r@ == Map::<K, V>::empty(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize)
            ensures self@.dom().finite(), r == self@.dom().len(), r <= isize::MAX as usize,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool)
            ensures self@.dom().finite(), r == (self@.dom().len() == 0), r == (self@ =~= Map::<K, V>::empty()),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn contains_key(&self, k: &K) -> (r: bool)
            ensures r == self@.dom().contains(*k),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn get(&self, k: &K) -> (r: Option<&V>)
            ensures
                r is Some == self@.dom().contains(*k),
                r matches Some(v) ==> *v == self@[*k],
        { unimplemented!() }
        #[verifier::external_body]
        pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
            ensures
                r is Some == old(self)@.dom().contains(*k),
                r is None ==> *final(self) == *old(self),
                r matches Some(v) ==> *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
            ensures
                final(self)@ == old(self)@.insert(k, v),
                r is Some == old(self)@.dom().contains(k),
                r matches Some(o) ==> o == old(self)@[k],
                old(self)@.dom().finite(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn remove(&mut self, k: &K) -> (r: Option<V>)
            ensures
                final(self)@ == old(self)@.remove(*k),
                r is Some == old(self)@.dom().contains(*k),
                r matches Some(o) ==> o == old(self)@[*k],
                old(self)@.dom().finite(),
        { unimplemented!() }
        /// All keys, each once, in some order.
        #[verifier::external_body]
        pub fn v_keys(&self) -> (r: Vec<K>)
            ensures
                r@.no_duplicates(),
                r@.to_set() =~= self@.dom(),
                self@.dom().finite(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn values<'a>(&'a self) -> (r: Values<'a, K, V>)
            ensures
                r.m() == self@,
                r.keys().no_duplicates(),
                r.keys().to_set() =~= self@.dom(),
                self@.dom().finite(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn v_get_mut_at(&mut self, ks: &Vec<K>, i: usize) -> (r: &mut V)
            requires
                i < ks@.len(),
                old(self)@.dom().contains(ks@[i as int]),
            ensures
                *r == old(self)@[ks@[i as int]],
                final(self)@ == old(self)@.insert(ks@[i as int], *final(r)),
        { unimplemented!() }
    }

    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::reject_recursive_types(V)]
    pub struct Values<'a, K, V> { p: core::marker::PhantomData<&'a (K, V)> }
    impl<'a, K, V> Values<'a, K, V> {
        pub uninterp spec fn m(&self) -> Map<K, V>;
        pub uninterp spec fn keys(&self) -> Seq<K>;
    }
    impl<'a, K, V> VSeq for Values<'a, K, V> {
        type Item = &'a V;
        open spec fn vseq(&self) -> Seq<&'a V> {
            Seq::new(self.keys().len(), |i: int| &self.m()[self.keys()[i]])
        }
        #[verifier::external_body]
        fn vlen(&self) -> (r: usize) { unimplemented!() }
        #[verifier::external_body]
        fn vget(&self, i: usize) -> (r: &'a V) { unimplemented!() }
    }

    // ---------------------------------------------------------- iteration

    /// `extend_from_slice`, with the whole result stated.
    pub trait VExt {
        spec fn vbytes(&self) -> Seq<u8>;
        fn vextend_from_slice(&mut self, s: &[u8])
            ensures final(self).vbytes() == old(self).vbytes() + s@;
    }
    impl VExt for Vec<u8> {
        open spec fn vbytes(&self) -> Seq<u8> { self@ }
        fn vextend_from_slice(&mut self, s: &[u8]) {
            self.extend_from_slice(s);
            proof { assert(self@ =~= old(self)@ + s@); }
        }
    }

    /// A sequence that a `for` loop walks.
    pub trait VSeq {
        type Item;
        spec fn vseq(&self) -> Seq<Self::Item>;
        fn vlen(&self) -> (r: usize)
            ensures r == self.vseq().len();
        fn vget(&self, i: usize) -> (r: Self::Item)
            requires i < self.vseq().len(),
            ensures r == self.vseq()[i as int];
    }
    impl<T> VSeq for Vec<T> {
        type Item = T;
        open spec fn vseq(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn vlen(&self) -> (r: usize) { unimplemented!() }
        // moves the element out: every index is visited once
        #[verifier::external_body]
        fn vget(&self, i: usize) -> (r: T) { unimplemented!() }
    }
    impl<'a, T> VSeq for &'a Vec<T> {
        type Item = &'a T;
        open spec fn vseq(&self) -> Seq<&'a T> { Seq::new((**self)@.len(), |i: int| &(**self)@[i]) }
        #[verifier::external_body]
        fn vlen(&self) -> (r: usize) { unimplemented!() }
        #[verifier::external_body]
        fn vget(&self, i: usize) -> (r: &'a T) { unimplemented!() }
    }
    impl<'a, T> VSeq for &'a [T] {
        type Item = &'a T;
        open spec fn vseq(&self) -> Seq<&'a T> { Seq::new((**self)@.len(), |i: int| &(**self)@[i]) }
        #[verifier::external_body]
        fn vlen(&self) -> (r: usize) { unimplemented!() }
        #[verifier::external_body]
        fn vget(&self, i: usize) -> (r: &'a T) { unimplemented!() }
    }
    impl<'a, 'b, T> VSeq for &'b &'a [T] {
        type Item = &'a T;
        open spec fn vseq(&self) -> Seq<&'a T> { Seq::new((***self)@.len(), |i: int| &(***self)@[i]) }
        #[verifier::external_body]
        fn vlen(&self) -> (r: usize) { unimplemented!() }
        #[verifier::external_body]
        fn vget(&self, i: usize) -> (r: &'a T) { unimplemented!() }
    }
    impl<'a, T, const N: usize> VSeq for &'a [T; N] {
        type Item = &'a T;
        open spec fn vseq(&self) -> Seq<&'a T> { Seq::new((**self)@.len(), |i: int| &(**self)@[i]) }
        #[verifier::external_body]
        fn vlen(&self) -> (r: usize) { unimplemented!() }
        #[verifier::external_body]
        fn vget(&self, i: usize) -> (r: &'a T) { unimplemented!() }
    }

    /// The element at an index, moved out of the vector.
    #[verifier::external_body]
    pub fn vtake<T>(v: &Vec<T>, i: usize) -> (r: T)
        requires i < v@.len(),
        ensures r == v@[i as int],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn vec_of<T, const N: usize>(a: [T; N]) -> (r: Vec<T>)
        ensures r@ == a@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vec_rep<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
        ensures r@ == Seq::new(n as nat, |i: int| x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vslice<T, S: VSlice<T> + ?Sized>(s: &S, a: usize, b: usize) -> (r: &[T])
        requires a <= b <= s.vs().len(),
        ensures r@ == s.vs().subrange(a as int, b as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vslice_from<T, S: VSlice<T> + ?Sized>(s: &S, a: usize) -> (r: &[T])
        requires a <= s.vs().len(),
        ensures r@ == s.vs().subrange(a as int, s.vs().len() as int),
    { unimplemented!() }
    pub trait VSlice<T> {
        spec fn vs(&self) -> Seq<T>;
    }
    impl<T> VSlice<T> for Vec<T> {
        open spec fn vs(&self) -> Seq<T> { self@ }
    }
    impl<T> VSlice<T> for [T] {
        open spec fn vs(&self) -> Seq<T> { self@ }
    }
    #[verifier::external_body]
    pub fn vcopy_into<T: Copy, S: VSlice<T> + ?Sized>(v: &mut Vec<T>, a: usize, b: usize, s: &S)
        requires
            a <= b <= old(v)@.len(),
            s.vs().len() == b - a,
        ensures
            final(v)@ == old(v)@.subrange(0, a as int) + s.vs() + old(v)@.subrange(b as int, old(v)@.len() as int),
    { unimplemented!() }
    impl<T, const N: usize> VSlice<T> for [T; N] {
        open spec fn vs(&self) -> Seq<T> { self@ }
    }

    pub fn vmin(a: usize, b: usize) -> (r: usize)
        ensures r == if a <= b { a } else { b },
    { if a <= b { a } else { b } }

    /// panic!, unreachable!, a failed assert!: must not be reachable.
    #[verifier::external_body]
    pub fn vpanic() -> (r: !)
        requires false,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vlog<T>(t: &T) { }
    #[verifier::external_body]
    pub fn vformat() -> String { unimplemented!() }

    // ------------------------------------------------------------ anyhow

    pub mod anyhow {
        use vstd::prelude::*;
        verus! {
        #[verifier::external_body]
        pub struct Error { p: u8 }
        pub type Result<T, E = Error> = core::result::Result<T, E>;
        #[verifier::external_body]
        pub fn verr() -> Error { unimplemented!() }
        }
    }

    // -------------------------------------------------------- conversions

    pub trait VFrom<T>: Sized {
        spec fn from_ens(v: T, r: Self) -> bool;
        fn vfrom(v: T) -> (r: Self)
            ensures Self::from_ens(v, r);
    }
    pub trait VInto<U>: Sized {
        spec fn into_ens(self, r: U) -> bool;
        fn vinto(self) -> (r: U)
            ensures self.into_ens(r);
    }
    impl<T, U: VFrom<T>> VInto<U> for T {
        open spec fn into_ens(self, r: U) -> bool { U::from_ens(self, r) }
        fn vinto(self) -> (r: U) { U::vfrom(self) }
    }
    pub trait VTryFrom<T>: Sized {
        type Error;
        spec fn try_from_ens(v: T, r: core::result::Result<Self, Self::Error>) -> bool;
        fn vtry_from(v: T) -> (r: core::result::Result<Self, Self::Error>)
            ensures Self::try_from_ens(v, r);
    }
    pub trait VTryInto<U>: Sized {
        type Error;
        spec fn try_into_ens(self, r: core::result::Result<U, Self::Error>) -> bool;
        fn vtry_into(self) -> (r: core::result::Result<U, Self::Error>)
            ensures self.try_into_ens(r);
    }
    impl<T, U: VTryFrom<T>> VTryInto<U> for T {
        type Error = U::Error;
        open spec fn try_into_ens(self, r: core::result::Result<U, U::Error>) -> bool { U::try_from_ens(self, r) }
        fn vtry_into(self) -> (r: core::result::Result<U, U::Error>) { U::vtry_from(self) }
    }
    pub trait VDefault: Sized {
        spec fn default_ens(r: Self) -> bool;
        fn vdefault() -> (r: Self)
            ensures Self::default_ens(r);
    }
    impl<K, V> VDefault for HashMap<K, V> {
        open spec fn default_ens(r: Self) -> bool { r@ == Map::<K, V>::empty() }
        #[verifier::external_body]
        fn vdefault() -> (r: Self) { unimplemented!() }
    }
    impl<const N: usize> VDefault for [u8; N] {
        open spec fn default_ens(r: Self) -> bool { r@ == Seq::new(N as nat, |i: int| 0u8) }
        #[verifier::external_body]
        fn vdefault() -> (r: Self) { unimplemented!() }
    }
    pub trait VClone: Sized {
        fn vclone(&self) -> (r: Self)
            ensures r == *self;
    }
    impl<T> VClone for Vec<T> {
        #[verifier::external_body]
        fn vclone(&self) -> (r: Self) { unimplemented!() }
    }
    impl<T> VClone for Option<T> {
        #[verifier::external_body]
        fn vclone(&self) -> (r: Self) { unimplemented!() }
    }
    impl VClone for crate::app_config::AppConfig {
        #[verifier::external_body]
        fn vclone(&self) -> (r: Self) { unimplemented!() }
    }
    impl VClone for String {
        #[verifier::external_body]
        fn vclone(&self) -> (r: Self) { unimplemented!() }
    }
    pub trait VCopied: Sized {
        type Out;
        spec fn copied_spec(self) -> Self::Out;
        fn v_copied(self) -> (r: Self::Out)
            ensures r == self.copied_spec();
    }
    impl<'a, T: Copy> VCopied for Option<&'a T> {
        type Out = Option<T>;
        open spec fn copied_spec(self) -> Option<T> { match self { Some(x) => Some(*x), None => None } }
        fn v_copied(self) -> (r: Option<T>) { match self { Some(x) => Some(*x), None => None } }
    }

    #[verifier::external_body]
    #[derive(Debug)]
    pub struct ArrErr { p: u8 }
    impl<'a, T: Copy, const N: usize> VTryFrom<&'a [T]> for [T; N] {
        type Error = ArrErr;
        open spec fn try_from_ens(v: &'a [T], r: core::result::Result<[T; N], ArrErr>) -> bool {
            (r is Ok) == (v@.len() == N) && (r matches Ok(a) ==> a@ == v@)
        }
        #[verifier::external_body]
        fn vtry_from(v: &'a [T]) -> (r: core::result::Result<[T; N], ArrErr>) { unimplemented!() }
    }
    impl<T, const N: usize> VTryFrom<Vec<T>> for [T; N] {
        type Error = ArrErr;
        open spec fn try_from_ens(v: Vec<T>, r: core::result::Result<[T; N], ArrErr>) -> bool {
            (r is Ok) == (v@.len() == N) && (r matches Ok(a) ==> a@ == v@)
        }
        #[verifier::external_body]
        fn vtry_from(v: Vec<T>) -> (r: core::result::Result<[T; N], ArrErr>) { unimplemented!() }
    }
    impl<'a> VFrom<&'a [u8]> for Vec<u8> {
        open spec fn from_ens(v: &'a [u8], r: Vec<u8>) -> bool { r@ == v@ }
        #[verifier::external_body]
        fn vfrom(v: &'a [u8]) -> (r: Vec<u8>) { unimplemented!() }
    }
    impl VFrom<bool> for u8 {
        open spec fn from_ens(v: bool, r: u8) -> bool { r == if v { 1u8 } else { 0u8 } }
        fn vfrom(v: bool) -> (r: u8) { if v { 1 } else { 0 } }
    }
    impl VFrom<bytes::BytesMut> for Vec<u8> {
        open spec fn from_ens(v: bytes::BytesMut, r: Vec<u8>) -> bool { r@ == v@ }
        #[verifier::external_body]
        fn vfrom(v: bytes::BytesMut) -> (r: Vec<u8>) { unimplemented!() }
    }

    // the two halves of `and_then`
    pub struct VErr<E>(pub E);
    pub trait VTry: Sized {
        type Out;
        type Res;
        spec fn split_spec(self) -> core::result::Result<Self::Out, Self::Res>;
        fn vsplit(self) -> (r: core::result::Result<Self::Out, Self::Res>)
            ensures r == self.split_spec();
    }
    impl<T, E> VTry for core::result::Result<T, E> {
        type Out = T;
        type Res = VErr<E>;
        open spec fn split_spec(self) -> core::result::Result<T, VErr<E>> {
            match self { Ok(x) => Ok(x), Err(e) => Err(VErr(e)) }
        }
        fn vsplit(self) -> (r: core::result::Result<T, VErr<E>>) {
            match self { Ok(x) => Ok(x), Err(e) => Err(VErr(e)) }
        }
    }
    impl<T> VTry for Option<T> {
        type Out = T;
        type Res = VErr<()>;
        open spec fn split_spec(self) -> core::result::Result<T, VErr<()>> {
            match self { Some(x) => Ok(x), None => Err(VErr(())) }
        }
        fn vsplit(self) -> (r: core::result::Result<T, VErr<()>>) {
            match self { Some(x) => Ok(x), None => Err(VErr(())) }
        }
    }
    pub trait VResid<T>: Sized {
        spec fn resid_spec(self) -> T;
        fn vresid(self) -> (r: T)
            ensures r == self.resid_spec();
    }
    impl<T, E> VResid<core::result::Result<T, E>> for VErr<E> {
        open spec fn resid_spec(self) -> core::result::Result<T, E> { Err(self.0) }
        fn vresid(self) -> (r: core::result::Result<T, E>) { Err(self.0) }
    }
    impl<T> VResid<Option<T>> for VErr<()> {
        open spec fn resid_spec(self) -> Option<T> { None }
        fn vresid(self) -> (r: Option<T>) { None }
    }

    // --------------------------------------------------------- integers

    pub open spec fn le16(b: Seq<u8>) -> int { b[0] as int + 256 * (b[1] as int) }
    pub open spec fn le32(b: Seq<u8>) -> int {
        b[0] as int + 256 * (b[1] as int) + 65536 * (b[2] as int) + 16777216 * (b[3] as int)
    }
    pub open spec fn le64(b: Seq<u8>) -> int {
        le32(b.subrange(0, 4)) + 4294967296 * le32(b.subrange(4, 8))
    }
    pub open spec fn u8le(v: u8) -> Seq<u8> { seq![v] }
    pub open spec fn u16le(v: u16) -> Seq<u8> { seq![(v & 0xff) as u8, (v >> 8) as u8] }
    pub open spec fn u32le(v: u32) -> Seq<u8> {
        seq![(v & 0xff) as u8, ((v >> 8) & 0xff) as u8, ((v >> 16) & 0xff) as u8, (v >> 24) as u8]
    }
    pub open spec fn u64le(v: u64) -> Seq<u8> {
        seq![
            (v & 0xff) as u8, ((v >> 8) & 0xff) as u8, ((v >> 16) & 0xff) as u8, ((v >> 24) & 0xff) as u8,
            ((v >> 32) & 0xff) as u8, ((v >> 40) & 0xff) as u8, ((v >> 48) & 0xff) as u8, (v >> 56) as u8
        ]
    }
    #[verifier::external_body]
    pub fn u8_from_le_bytes(b: [u8; 1]) -> (r: u8)
        ensures u8le(r) == b@, r == b@[0],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn u16_from_le_bytes(b: [u8; 2]) -> (r: u16)
        ensures u16le(r) == b@, r == le16(b@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn u32_from_le_bytes(b: [u8; 4]) -> (r: u32)
        ensures u32le(r) == b@, r == le32(b@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn u64_from_le_bytes(b: [u8; 8]) -> (r: u64)
        ensures u64le(r) == b@, r == le64(b@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn u16_to_le_bytes(v: u16) -> (r: [u8; 2])
        ensures r@ == u16le(v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn u32_to_le_bytes(v: u32) -> (r: [u8; 4])
        ensures r@ == u32le(v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn u64_to_le_bytes(v: u64) -> (r: [u8; 8])
        ensures r@ == u64le(v),
    { unimplemented!() }
    pub trait VNum: Sized {
        type LB;
        spec fn le_ens(self, r: Self::LB) -> bool;
        spec fn be_ens(self, r: Self::LB) -> bool;
        fn v_to_le_bytes(self) -> (r: Self::LB)
            ensures self.le_ens(r);
        fn v_to_be_bytes(self) -> (r: Self::LB)
            ensures self.be_ens(r);
    }
    pub open spec fn be16(x: u16) -> [u8; 2] { [(x >> 8) as u8, (x & 0xff) as u8] }
    impl VNum for u16 {
        type LB = [u8; 2];
        open spec fn le_ens(self, r: [u8; 2]) -> bool { r@ == u16le(self) }
        open spec fn be_ens(self, r: [u8; 2]) -> bool { r == be16(self) }
        #[verifier::external_body]
        fn v_to_le_bytes(self) -> (r: [u8; 2]) { unimplemented!() }
        #[verifier::external_body]
        fn v_to_be_bytes(self) -> (r: [u8; 2]) { unimplemented!() }
    }
    impl VNum for u32 {
        type LB = [u8; 4];
        open spec fn le_ens(self, r: [u8; 4]) -> bool { r@ == u32le(self) }
        open spec fn be_ens(self, r: [u8; 4]) -> bool { r@ == u32le(self).reverse() }
        #[verifier::external_body]
        fn v_to_le_bytes(self) -> (r: [u8; 4]) { unimplemented!() }
        #[verifier::external_body]
        fn v_to_be_bytes(self) -> (r: [u8; 4]) { unimplemented!() }
    }
    impl VNum for u64 {
        type LB = [u8; 8];
        open spec fn le_ens(self, r: [u8; 8]) -> bool { r@ == u64le(self) }
        open spec fn be_ens(self, r: [u8; 8]) -> bool { r@ == u64le(self).reverse() }
        #[verifier::external_body]
        fn v_to_le_bytes(self) -> (r: [u8; 8]) { unimplemented!() }
        #[verifier::external_body]
        fn v_to_be_bytes(self) -> (r: [u8; 8]) { unimplemented!() }
    }

    // ------------------------------------------------------ pdl_runtime

    pub mod pdl_runtime {
        use vstd::prelude::*;
        verus! {
        #[derive(Debug)]
    pub enum DecodeError {
            InvalidPacketError,
            ConstraintOutOfBounds { field: &'static str, value: u64 },
            InvalidFixedValue { expected: u64, actual: u64 },
            InvalidLengthError { obj: &'static str, wanted: usize, got: usize },
            InvalidArraySize { array: usize, element: usize },
            ImpossibleStructError,
            InvalidEnumValueError { obj: &'static str, field: &'static str, value: u64, type_: &'static str },
            InvalidFieldValue { packet: &'static str, field: &'static str, expected: &'static str, actual: String },
            InvalidChildError { expected: &'static str, actual: String },
            TrailingBytes,
            TrailingBytesInArray { obj: &'static str, field: &'static str },
        }
        #[derive(Debug)]
    pub enum EncodeError {
            SizeOverflow { packet: &'static str, field: &'static str, size: usize, maximum_size: usize },
            CountOverflow { packet: &'static str, field: &'static str, count: usize, maximum_count: usize },
            InvalidScalarValue { packet: &'static str, field: &'static str, value: u64, maximum_value: u64 },
            InvalidArrayElementSize { packet: &'static str, field: &'static str, size: usize, expected_size: usize, element_index: usize },
            InconsistentConditionValue { packet: &'static str, field: &'static str },
        }

        /// The two default methods decode_full and encode_to_vec are the ones
        /// of pdl_runtime; they are verified here against encode and decode.
        pub trait Packet: Sized {
            spec fn enc_ok(&self) -> bool;
            spec fn enc(&self) -> Seq<u8>;
            spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;
            spec fn dec_bad(b: Seq<u8>) -> bool;

            fn encode(&self, buf: &mut Vec<u8>) -> (r: core::result::Result<(), EncodeError>)
                ensures
                    (r is Ok) == self.enc_ok(),
                    r is Ok ==> final(buf)@ == old(buf)@ + self.enc();
            fn decode<'a>(buf: &'a [u8]) -> (r: core::result::Result<(Self, &'a [u8]), DecodeError>)
                ensures
                    r matches Ok(x) ==> Self::dec_ok(buf@, x.0, x.1@),
                    r is Err ==> Self::dec_bad(buf@);
            fn decode_mut(buf: &mut &[u8]) -> (r: core::result::Result<Self, DecodeError>)
                ensures
                    r matches Ok(p) ==> Self::dec_ok((*old(buf))@, p, (*final(buf))@),
                    r is Err ==> Self::dec_bad((*old(buf))@) && *final(buf) == *old(buf),
            {
                match Self::decode(*buf) {
                    Ok((packet, remaining)) => {
                        *buf = remaining;
                        Ok(packet)
                    }
                    Err(e) => Err(e),
                }
            }
            fn decode_full(buf: &[u8]) -> (r: core::result::Result<Self, DecodeError>)
                ensures
                    r matches Ok(p) ==> Self::dec_ok(buf@, p, Seq::<u8>::empty()),
                    r is Err ==> Self::dec_bad(buf@)
                        || (exists|p: Self, rest: Seq<u8>| rest.len() > 0 && #[trigger] Self::dec_ok(buf@, p, rest)),
            {
                match Self::decode(buf) {
                    Ok((packet, remaining)) => {
                        if remaining.len() == 0 {
                            proof { assert(remaining@ =~= Seq::<u8>::empty()); }
                            Ok(packet)
                        } else {
                            Err(DecodeError::TrailingBytes)
                        }
                    }
                    Err(e) => Err(e),
                }
            }
            fn encode_to_vec(&self) -> (r: core::result::Result<Vec<u8>, EncodeError>)
                ensures
                    (r is Ok) == self.enc_ok(),
                    r matches Ok(v) ==> v@ == self.enc(),
            {
                let mut buf = Vec::new();
                match self.encode(&mut buf) {
                    Ok(_) => {
                        proof { assert(buf@ =~= self.enc()); }
                        Ok(buf)
                    }
                    Err(e) => Err(e),
                }
            }
        }
        }
    }

    // -------------------------------------------------------------- bytes

    pub mod bytes {
        use vstd::prelude::*;
        use super::{le16, u16le, u32le, u64le, VClone};
        verus! {
        #[verifier::external_body]
        pub struct BytesMut { p: u8 }
        impl View for BytesMut {
            type V = Seq<u8>;
            uninterp spec fn view(&self) -> Seq<u8>;
        }
        impl BytesMut {
            #[verifier::external_body]
            pub fn new() -> (r: Self)
                ensures r@ == Seq::<u8>::empty(),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn len(&self) -> (r: usize)
                ensures r == self@.len(), self@.len() <= 0x7fff_ffff_ffff_ffff,
            { unimplemented!() }
            #[verifier::external_body]
            pub fn is_empty(&self) -> (r: bool)
                ensures r == (self@.len() == 0),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn clear(&mut self)
                ensures final(self)@ == Seq::<u8>::empty(),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn vextend_from_slice(&mut self, b: &[u8])
                ensures final(self)@ == old(self)@ + b@,
            { unimplemented!() }
        }
        impl VClone for BytesMut {
            #[verifier::external_body]
            fn vclone(&self) -> (r: Self) { unimplemented!() }
        }
        pub struct Bytes { pub p: u8 }

        pub trait Buf {
            spec fn bv(&self) -> Seq<u8>;
            fn remaining(&self) -> (r: usize)
                ensures r == self.bv().len();
            fn get_u8(&mut self) -> (r: u8)
                requires old(self).bv().len() >= 1,
                ensures r == old(self).bv()[0], final(self).bv() == old(self).bv().subrange(1, old(self).bv().len() as int);
            fn get_u16_le(&mut self) -> (r: u16)
                requires old(self).bv().len() >= 2,
                ensures u16le(r) == old(self).bv().subrange(0, 2), r == le16(old(self).bv().subrange(0, 2)), final(self).bv() == old(self).bv().subrange(2, old(self).bv().len() as int);
            fn get_u32_le(&mut self) -> (r: u32)
                requires old(self).bv().len() >= 4,
                ensures u32le(r) == old(self).bv().subrange(0, 4), final(self).bv() == old(self).bv().subrange(4, old(self).bv().len() as int);
            fn get_u64_le(&mut self) -> (r: u64)
                requires old(self).bv().len() >= 8,
                ensures u64le(r) == old(self).bv().subrange(0, 8), final(self).bv() == old(self).bv().subrange(8, old(self).bv().len() as int);
            fn get_uint_le(&mut self, n: usize) -> (r: u64)
                requires old(self).bv().len() >= n, n <= 8,
                ensures final(self).bv() == old(self).bv().subrange(n as int, old(self).bv().len() as int);
            fn advance(&mut self, n: usize)
                requires old(self).bv().len() >= n,
                ensures final(self).bv() == old(self).bv().subrange(n as int, old(self).bv().len() as int);
        }
        impl<'a> Buf for &'a [u8] {
            open spec fn bv(&self) -> Seq<u8> { (**self)@ }
            #[verifier::external_body]
            fn remaining(&self) -> (r: usize) { unimplemented!() }
            #[verifier::external_body]
            fn get_u8(&mut self) -> (r: u8) { unimplemented!() }
            #[verifier::external_body]
            fn get_u16_le(&mut self) -> (r: u16) { unimplemented!() }
            #[verifier::external_body]
            fn get_u32_le(&mut self) -> (r: u32) { unimplemented!() }
            #[verifier::external_body]
            fn get_u64_le(&mut self) -> (r: u64) { unimplemented!() }
            #[verifier::external_body]
            fn get_uint_le(&mut self, n: usize) -> (r: u64) { unimplemented!() }
            #[verifier::external_body]
            fn advance(&mut self, n: usize) { unimplemented!() }
        }
        pub trait BufMut {
            fn put_u8(&mut self, v: u8);
            fn put_u16_le(&mut self, v: u16);
            fn put_u32_le(&mut self, v: u32);
            fn put_u64_le(&mut self, v: u64);
            fn put_uint_le(&mut self, v: u64, n: usize);
            fn put_bytes(&mut self, v: u8, n: usize);
            fn put_slice(&mut self, s: &[u8]);
        }
        impl BufMut for Vec<u8> {
            #[verifier::external_body]
            fn put_u8(&mut self, v: u8)
                ensures final(self)@ == old(self)@.push(v),
            { unimplemented!() }
            #[verifier::external_body]
            fn put_u16_le(&mut self, v: u16)
                ensures final(self)@ == old(self)@ + u16le(v),
            { unimplemented!() }
            #[verifier::external_body]
            fn put_u32_le(&mut self, v: u32)
                ensures final(self)@ == old(self)@ + u32le(v),
            { unimplemented!() }
            #[verifier::external_body]
            fn put_u64_le(&mut self, v: u64)
                ensures final(self)@ == old(self)@ + u64le(v),
            { unimplemented!() }
            #[verifier::external_body]
            fn put_uint_le(&mut self, v: u64, n: usize)
                ensures final(self)@.len() == old(self)@.len() + n, old(self)@.is_prefix_of(final(self)@),
            { unimplemented!() }
            #[verifier::external_body]
            fn put_bytes(&mut self, v: u8, n: usize)
                ensures final(self)@ == old(self)@ + Seq::new(n as nat, |i: int| v),
            { unimplemented!() }
            #[verifier::external_body]
            fn put_slice(&mut self, s: &[u8])
                ensures final(self)@ == old(self)@ + s@,
            { unimplemented!() }
        }
        }
    }

    // ------------------------------------------------- streams and estimator

    /// The packets read from a client, in order.
    #[verifier::external_body]
    pub struct RxStream { p: u8 }
    impl RxStream {
        pub uninterp spec fn sid(&self) -> int;
        #[verifier::external_body]
        pub fn next(&mut self, w: &mut World) -> (r: Option<Vec<u8>>)
            ensures
                final(self).sid() == old(self).sid(),
                r is None ==> final(w)@ == (WG { ended: old(w)@.ended.insert(old(self).sid()), ..old(w)@ }),
                r matches Some(p) ==> p@.len() < 0x8000_0000 && final(w)@ == (WG { taken: old(w)@.taken.insert(old(self).sid(), taken_on(old(w)@, old(self).sid()).push(p@)), ..old(w)@ }),
        { unimplemented!() }
    }
    /// The packets written to a client, in order.
    #[verifier::external_body]
    pub struct TxSink { p: u8 }
    impl TxSink {
        pub uninterp spec fn sid(&self) -> int;
        #[verifier::external_body]
        pub fn send(&mut self, b: Vec<u8>, w: &mut World) -> (r: core::result::Result<(), anyhow::Error>)
            ensures
                final(self).sid() == old(self).sid(),
                r is Ok ==> final(w)@ == (WG { out: old(w)@.out.insert(old(self).sid(), out_on(old(w)@, old(self).sid()).push(b@)), ..old(w)@ }),
                r is Err ==> final(w)@ == (WG { io_err: true, ..old(w)@ })
                    || final(w)@ == (WG { io_err: true, out: old(w)@.out.insert(old(self).sid(), out_on(old(w)@, old(self).sid()).push(b@)), ..old(w)@ }),
        { unimplemented!() }
    }

    /// A ranging estimator: an unknown function of the two handles, which
    /// does not change during one ranging round.
    #[verifier::external_body]
    pub struct Estimator { p: u8 }
    impl Estimator {
        pub uninterp spec fn est(&self, l: usize, r: usize) -> Option<crate::RangingMeasurement>;
        #[verifier::external_body]
        pub fn estimate(&self, l: &usize, r: &usize) -> (res: Option<crate::RangingMeasurement>)
            ensures res == self.est(*l, *r),
        { unimplemented!() }
    }

    /// `[T]::chunks`: consecutive pieces of n elements, the last may be shorter.
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Chunks<'a, T> { p: core::marker::PhantomData<&'a T> }
    impl<'a, T> Chunks<'a, T> {
        pub uninterp spec fn s(&self) -> Seq<T>;
        pub uninterp spec fn n(&self) -> int;
    }
    impl<'a, T> VSeq for Chunks<'a, T> {
        type Item = &'a [T];
        uninterp spec fn vseq(&self) -> Seq<&'a [T]>;
        #[verifier::external_body]
        fn vlen(&self) -> (r: usize) { unimplemented!() }
        #[verifier::external_body]
        fn vget(&self, i: usize) -> (r: &'a [T]) { unimplemented!() }
    }
    #[verifier::opaque]
    pub open spec fn chunk<T>(s: Seq<T>, i: int, n: int) -> Seq<T> { s.subrange(i * n, if (i + 1) * n <= s.len() { (i + 1) * n } else { s.len() as int }) }
    #[verifier::opaque]
    pub open spec fn chunk_count(len: int, n: int) -> int { (len + n - 1) / n }
    #[verifier::external_body]
    pub fn vchunks<'a, T>(s: &'a [T], n: usize) -> (r: Chunks<'a, T>)
        requires n != 0,
        ensures
            r.s() == s@,
            r.n() == n,
            r.vseq().len() == chunk_count(s@.len() as int, n as int),
            forall|i: int| 0 <= i < r.vseq().len() ==> (#[trigger] r.vseq()[i])@
                == chunk(s@, i, n as int),
    { unimplemented!() }

    /// `flat_map` and `collect`: append the items of one element.
    #[verifier::external_body]
    pub fn vappend<T, B: VItems<T>>(v: &mut Vec<T>, b: B)
        ensures final(v)@ == old(v)@ + b.items(),
    { unimplemented!() }
    pub trait VItems<T> {
        spec fn items(&self) -> Seq<T>;
    }
    impl<T> VItems<T> for Vec<T> {
        open spec fn items(&self) -> Seq<T> { self@ }
    }
    impl<T, const N: usize> VItems<T> for [T; N] {
        open spec fn items(&self) -> Seq<T> { self@ }
    }


    // ------------------------------------------------- standard library

    // The element types compared in the emulator (integers, field-less enums
    // and MacAddress) have structural equality.
    pub assume_specification<T: core::cmp::PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
        ensures r == s@.contains(*x);
    pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
        ensures r@ == s@;
    pub assume_specification<T, E> [core::result::Result::<T, E>::unwrap_or] (x: core::result::Result<T, E>, d: T) -> (r: T)
        ensures r == (match x { Ok(v) => v, Err(_) => d });

    } // verus!
}
