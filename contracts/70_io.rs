// Framing, reassembly and captures. The predicates are named after the
// property they state; the contracts in lib.vc and pcapng.vc use them.
pub mod iospec {
    use vstd::prelude::*;
    use crate::stubs::*;
    use crate::stubs::pdl_runtime::Packet;
    use crate::packets::uci::*;
    use crate::codec::*;
    use crate::dspec::*;
    use crate::pcapng;
    verus! {

    /// What was appended since the sequence had n elements.
    pub open spec fn since<T>(s: Seq<T>, n: int) -> Seq<T> { s.subrange(n, s.len() as int) }
    pub broadcast proof fn lem_since<T>(s: Seq<T>, x: T, n: int)
        requires 0 <= n <= s.len(),
        ensures #[trigger] since(s.push(x), n) == since(s, n).push(x),
    {
        assert(since(s.push(x), n) =~= since(s, n).push(x));
    }
    pub open spec fn is_prefix<T>(x: Seq<T>, a: Seq<T>) -> bool {
        x.len() <= a.len() && forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] == a[i]
    }
    pub open spec fn extends<T>(a: Seq<T>, b: Seq<T>) -> bool { is_prefix(a, b) }

    /// The wire, the capture and the packet sources are all that changed.
    pub open spec fn only_io(w0: WG, w1: WG) -> bool {
        w1 == (WG { out: w1.out, taken: w1.taken, files: w1.files, cmds: w1.cmds, io_err: w1.io_err, ended: w1.ended, ..w0 })
    }
    pub open spec fn same_out(w0: WG, w1: WG, sid: int) -> bool {
        extends(out_on(w0, sid), out_on(w1, sid)) && w1.out.remove(sid) =~= w0.out.remove(sid)
    }
    pub open spec fn same_taken(w0: WG, w1: WG, sid: int) -> bool {
        extends(taken_on(w0, sid), taken_on(w1, sid)) && w1.taken.remove(sid) =~= w0.taken.remove(sid)
    }

    // ------------------------------------------------------------ segmenting

    pub open spec fn frag_max(b: Seq<u8>) -> int { if mt_of(b) == MessageType::Data { 1024 } else { 255 } }
    pub open spec fn frag_len(b: Seq<u8>, off: int) -> int {
        if b.len() - off <= frag_max(b) { b.len() - off } else { frag_max(b) }
    }
    /// The fragment that starts at offset off.
    pub open spec fn frag(b: Seq<u8>, off: int) -> Seq<u8> {
        let n = frag_len(b, off);
        let more = off + n < b.len();
        seq![
            (b[0] & 0xef) | (if more { 0x10u8 } else { 0u8 }),
            b[1],
            if mt_of(b) == MessageType::Data { (n as u16 & 0xff) as u8 } else { b[2] },
            if mt_of(b) == MessageType::Data { (n as u16 >> 8) as u8 } else { n as u8 },
        ] + b.subrange(off, off + n)
    }
    #[verifier::opaque]
    pub open spec fn frags_from(b: Seq<u8>, off: int) -> Seq<Seq<u8>>
        decreases b.len() - off
    {
        if off >= b.len() { Seq::empty() } else { seq![frag(b, off)] + frags_from(b, off + frag_len(b, off)) }
    }
    pub open spec fn all_frags(ps: Seq<Seq<u8>>) -> Seq<Seq<u8>>
        decreases ps.len()
    {
        if ps.len() == 0 { Seq::empty() } else { all_frags(ps.drop_last()) + frags_from(ps.last(), 4) }
    }
    pub broadcast proof fn lem_all_frags(ps: Seq<Seq<u8>>, p: Seq<u8>)
        ensures #[trigger] all_frags(ps.push(p)) == all_frags(ps) + frags_from(p, 4),
    {
        assert(ps.push(p).drop_last() =~= ps);
    }
    /// One more fragment is out.
    pub proof fn lem_frag(b: Seq<u8>, off: int)
        requires 4 <= off < b.len(),
        ensures
            frags_from(b, off) == seq![frag(b, off)] + frags_from(b, off + frag_len(b, off)),
            0 < frag_len(b, off) <= 1024,
    { reveal_with_fuel(frags_from, 2); }
    pub broadcast proof fn lem_frag_end(b: Seq<u8>, off: int)
        requires off >= b.len(),
        ensures #[trigger] frags_from(b, off) == Seq::<Seq<u8>>::empty(),
    { reveal_with_fuel(frags_from, 1); }
    pub proof fn lem_bits(b0: u8)
        ensures
            (b0 & !0x10u8) == b0 & 0xef,
            0u8 << 4 == 0u8, 1u8 << 4 == 0x10u8,
    {
        assert((b0 & !0x10u8) == b0 & 0xef) by (bit_vector);
        assert(0u8 << 4 == 0u8 && 1u8 << 4 == 0x10u8) by (bit_vector);
    }
    /// W01: what was written are the fragments of the packets taken, in
    /// order, all of them unless the connection or the capture failed.
    pub open spec fn p_write_W01(w0: WG, w1: WG, chan: int, sid: int) -> bool {
        let x = since(out_on(w1, sid), out_on(w0, sid).len() as int);
        let a = all_frags(since(taken_on(w1, chan), taken_on(w0, chan).len() as int));
        &&& is_prefix(x, a)
        &&& !w1.io_err ==> x =~= a && w1.ended.contains(chan)
    }

    /// W01: the packet, and nothing else, was written to the connection.
    pub open spec fn p_sock_write_W01(w0: WG, w1: WG, sid: int, p: Seq<u8>, r: core::result::Result<crate::stubs::tokio::net::tcp::OwnedWriteHalf, anyhow::Error>) -> bool {
        r matches Ok(s) ==> s.sid() == sid && w1 == (WG { sock_out: w0.sock_out.insert(sid, out_of(w0, sid) + p), ..w0 })
    }

    // ---------------------------------------------------------- reassembling

    /// The length of the payload that the header declares.
    pub open spec fn declared(p: Seq<u8>) -> int {
        if is_data(p) { p[2] as int + 256 * (p[3] as int) } else { p[3] as int }
    }
    pub broadcast proof fn lem_declared(b: Seq<u8>, h: DataPacketHeader)
        requires #[trigger] rel_DataPacketHeader(b, h),
        ensures h.payload_length as int == b[2] as int + 256 * (b[3] as int),
    {
        let v = h.payload_length;
        assert(b.subrange(2, 4)[0] == b[2] && b.subrange(2, 4)[1] == b[3]);
        assert(v as int == ((v & 0xff) as u8) as int + 256 * (((v >> 8) as u8) as int)) by (bit_vector);
    }
    /// W02: a packet is a header and the payload of the length it declares,
    /// and is all that was read from the connection.
    pub open spec fn p_sock_read_W02(w0: WG, w1: WG, sid: int, r: Option<(Vec<u8>, crate::stubs::tokio::net::tcp::OwnedReadHalf)>) -> bool {
        r matches Some(x) ==> {
            &&& x.1.sid() == sid
            &&& readable(x.0@) && x.0@.len() == 4 + declared(x.0@)
            &&& w1 == (WG { sock_in: w1.sock_in, ..w0 }) && w1.sock_in =~~= w0.sock_in.insert(sid, in_of(w0, sid) + x.0@)
        }
    }

    /// The state of the reassembly.
    pub ghost struct Re {
        pub acc: Option<Seq<u8>>,
        pub cmds: Seq<CmdV>,
        pub dead: bool,
    }
    pub open spec fn readable(p: Seq<u8>) -> bool { p.len() >= 4 && val_CommonPacketHeader(p.subrange(0, 1)) }
    pub open spec fn is_data(p: Seq<u8>) -> bool { of_MessageType(((p[0] >> 5) & 7) as u8) == Some(MessageType::Data) }
    pub open spec fn is_last(p: Seq<u8>) -> bool { of_PacketBoundaryFlag(((p[0] >> 4) & 1) as u8) == Some(PacketBoundaryFlag::Complete) }
    pub open spec fn joined(acc: Option<Seq<u8>>, p: Seq<u8>) -> Seq<u8> {
        match acc { Some(a) => a + p.subrange(4, p.len() as int), None => p }
    }
    pub open spec fn re_step(h: usize, r: Re, p: Seq<u8>) -> Re {
        if !readable(p) { Re { dead: true, ..r } }
        else if is_data(p) { Re { cmds: r.cmds.push(CmdV::Uci(h, p)), ..r } }
        else if is_last(p) { Re { cmds: r.cmds.push(CmdV::Uci(h, joined(r.acc, p))), acc: None, ..r } }
        else { Re { acc: Some(joined(r.acc, p)), ..r } }
    }
    pub open spec fn join(h: usize, ps: Seq<Seq<u8>>) -> Re
        decreases ps.len()
    {
        if ps.len() == 0 { Re { acc: None, cmds: Seq::empty(), dead: false } } else { re_step(h, join(h, ps.drop_last()), ps.last()) }
    }
    pub broadcast proof fn lem_join(h: usize, ps: Seq<Seq<u8>>, p: Seq<u8>)
        ensures #[trigger] join(h, ps.push(p)) == re_step(h, join(h, ps), p),
    {
        assert(ps.push(p).drop_last() =~= ps);
    }
    pub broadcast proof fn lem_header_rest(b: Seq<u8>, p: CommonPacketHeader, rest: Seq<u8>)
        requires b.len() == 1, #[trigger] CommonPacketHeader::dec_ok(b, p, rest),
        ensures rest.len() == 0,
    { }
    pub open spec fn got(w0: WG, w1: WG, sid: int) -> Seq<Seq<u8>> { since(taken_on(w1, sid), taken_on(w0, sid).len() as int) }
    pub open spec fn sent(w0: WG, w1: WG, sid: int) -> Seq<Seq<u8>> { since(out_on(w1, sid), out_on(w0, sid).len() as int) }
    /// W02: what was passed on is what the packets taken amount to.
    pub open spec fn p_read_W02(w0: WG, w1: WG, h: usize, sid: int) -> bool {
        let r = join(h, got(w0, w1, sid));
        &&& is_prefix(since(w1.cmds, w0.cmds.len() as int), r.cmds) && extends(w0.cmds, w1.cmds)
        &&& !w1.io_err ==> since(w1.cmds, w0.cmds.len() as int) =~= r.cmds && (r.dead || w1.ended.contains(sid))
    }
    /// All but a packet that closes the connection.
    pub open spec fn live(h: usize, ps: Seq<Seq<u8>>) -> Seq<Seq<u8>> {
        if join(h, ps).dead { ps.drop_last() } else { ps }
    }

    pub broadcast proof fn lem_live(h: usize, ps: Seq<Seq<u8>>, p: Seq<u8>)
        ensures #[trigger] live(h, ps.push(p)) == (if join(h, ps.push(p)).dead { ps } else { ps.push(p) }),
    {
        assert(ps.push(p).drop_last() =~= ps);
    }

    // --------------------------------------------------------------- capture

    pub open spec fn shb() -> Seq<u8> {
        seq![0x0au8, 0x0d, 0x0d, 0x0a, 28, 0, 0, 0, 0x4d, 0x3c, 0x2b, 0x1a, 1, 0, 0, 0,
            0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 28, 0, 0, 0]
    }
    pub open spec fn idb() -> Seq<u8> {
        seq![1u8, 0, 0, 0, 20, 0, 0, 0, 0x25, 0x01, 0, 0, 0, 0, 0, 0, 20, 0, 0, 0]
    }
    pub proof fn lem_header()
        ensures
            u32le(0x0A0D0D0A) == seq![0x0au8, 0x0d, 0x0d, 0x0a],
            u32le(28) == seq![28u8, 0, 0, 0],
            u32le(0x1A2B3C4D) == seq![0x4du8, 0x3c, 0x2b, 0x1a],
            u16le(1) == seq![1u8, 0],
            u16le(0) == seq![0u8, 0],
            u64le(0xFFFFFFFFFFFFFFFF) == seq![0xffu8, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
            u32le(1) == seq![1u8, 0, 0, 0],
            u32le(20) == seq![20u8, 0, 0, 0],
            u16le(293) == seq![0x25u8, 0x01],
            u32le(0) == seq![0u8, 0, 0, 0],
            u32le(6) == seq![6u8, 0, 0, 0],
    {
        assert(u32le(0x0A0D0D0A) =~= seq![0x0au8, 0x0d, 0x0d, 0x0a]) by (compute);
        assert(u32le(28) =~= seq![28u8, 0, 0, 0]) by (compute);
        assert(u32le(0x1A2B3C4D) =~= seq![0x4du8, 0x3c, 0x2b, 0x1a]) by (compute);
        assert(u16le(1) =~= seq![1u8, 0]) by (compute);
        assert(u16le(0) =~= seq![0u8, 0]) by (compute);
        assert(u64le(0xFFFFFFFFFFFFFFFF) =~= seq![0xffu8, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]) by (compute);
        assert(u32le(1) =~= seq![1u8, 0, 0, 0]) by (compute);
        assert(u32le(20) =~= seq![20u8, 0, 0, 0]) by (compute);
        assert(u16le(293) =~= seq![0x25u8, 0x01]) by (compute);
        assert(u32le(0) =~= seq![0u8, 0, 0, 0]) by (compute);
        assert(u32le(6) =~= seq![6u8, 0, 0, 0]) by (compute);
    }
    pub broadcast proof fn lem_sub_left(a: Seq<u8>, b: Seq<u8>, i: int, j: int)
        requires 0 <= i <= j <= a.len(),
        ensures #[trigger] (a + b).subrange(i, j) == a.subrange(i, j),
    {
        assert((a + b).subrange(i, j) =~= a.subrange(i, j));
    }
    pub broadcast proof fn lem_sub_right(a: Seq<u8>, b: Seq<u8>, i: int, j: int)
        requires a.len() <= i <= j <= a.len() + b.len(),
        ensures #[trigger] (a + b).subrange(i, j) == b.subrange(i - a.len(), j - a.len()),
    {
        assert((a + b).subrange(i, j) =~= b.subrange(i - a.len(), j - a.len()));
    }
    pub broadcast proof fn lem_sub_all(a: Seq<u8>, i: int, j: int)
        requires i == 0, j == a.len(),
        ensures #[trigger] a.subrange(i, j) == a,
    {
        assert(a.subrange(i, j) =~= a);
    }
    pub broadcast proof fn lem_sub_sub(a: Seq<u8>, i: int, j: int, k: int, l: int)
        requires 0 <= i <= j <= a.len(), 0 <= k <= l <= j - i,
        ensures #[trigger] a.subrange(i, j).subrange(k, l) == a.subrange(i + k, i + l),
    {
        assert(a.subrange(i, j).subrange(k, l) =~= a.subrange(i + k, i + l));
    }
    pub broadcast group seq_group { lem_sub_left, lem_sub_right, lem_sub_all, lem_sub_sub }
    pub open spec fn pad4(n: int) -> int { if n % 4 == 0 { 0 } else { 4 - n % 4 } }
    /// An enhanced packet block of interface 0 that holds the packet p. After
    /// the padding there may be an end-of-options mark.
    pub open spec fn is_epb(b: Seq<u8>, p: Seq<u8>) -> bool {
        let n = p.len() as int;
        let m = 28 + n + pad4(n);
        &&& b.len() == m + 4 || b.len() == m + 8
        &&& b.len() <= u32::MAX
        &&& b.subrange(0, 4) == u32le(6)
        &&& b.subrange(4, 8) == u32le(b.len() as u32)
        &&& b.subrange(8, 12) == u32le(0)
        &&& b.subrange(20, 24) == u32le(n as u32)
        &&& b.subrange(24, 28) == u32le(n as u32)
        &&& b.subrange(28, 28 + n) == p
        &&& b.len() == m + 8 ==> b.subrange(m, m + 4) =~= seq![0u8, 0, 0, 0]
        &&& b.subrange(b.len() - 4, b.len() as int) == u32le(b.len() as u32)
    }
    pub open spec fn epb_step(f0: Seq<u8>, f1: Seq<u8>, p: Seq<u8>) -> bool {
        f0.len() <= f1.len() && f1.subrange(0, f0.len() as int) == f0 && is_epb(f1.subrange(f0.len() as int, f1.len() as int), p)
    }
    /// The fields of a block one after the other.
    pub broadcast proof fn lem_epb(f0: Seq<u8>, a: Seq<u8>, t: Seq<u8>, i: Seq<u8>, hi: Seq<u8>, lo: Seq<u8>, n1: Seq<u8>, n2: Seq<u8>, p: Seq<u8>, pad: Seq<u8>, t2: Seq<u8>)
        requires
            a == u32le(6), i == u32le(0), hi.len() == 4, lo.len() == 4,
            p.len() < 0x8000_0000, n1 == u32le(p.len() as u32), n2 == n1,
            pad.len() == pad4(p.len() as int) || pad.len() == pad4(p.len() as int) + 4,
            pad =~= Seq::new(pad.len(), |j: int| 0u8),
            t == u32le((32 + p.len() + pad.len()) as u32), t2 == t,
        ensures
            epb_step(f0, #[trigger] (f0 + a + t + i + hi + lo + n1 + n2 + p + pad + t2), p),
    {
        let f1 = f0 + a + t + i + hi + lo + n1 + n2 + p + pad + t2;
        let z = f0.len() as int;
        let n = p.len() as int;
        let b = f1.subrange(z, f1.len() as int);
        assert(f1.subrange(0, z) =~= f0);
        assert(b =~= a + t + i + hi + lo + n1 + n2 + p + pad + t2);
        assert(b.subrange(0, 4) =~= a);
        assert(b.subrange(4, 8) =~= t);
        assert(b.subrange(8, 12) =~= i);
        assert(b.subrange(20, 24) =~= n1);
        assert(b.subrange(24, 28) =~= n2);
        assert(b.subrange(28, 28 + n) =~= p);
        let m = 28 + n + pad4(n);
        if b.len() == m + 8 {
            let q = m - 28 - n;
            assert(b.subrange(m, m + 4) =~= pad.subrange(q, q + 4));
            assert(pad.subrange(q, q + 4) =~= seq![0u8, 0, 0, 0]);
        }
        assert(b.subrange(b.len() - 4, b.len() as int) =~= t2);
    }
    /// G01: one block per packet was appended.
    #[verifier::opaque]
    pub open spec fn captured(f0: Seq<u8>, f1: Seq<u8>, ps: Seq<Seq<u8>>) -> bool
        decreases ps.len()
    {
        if ps.len() == 0 { f1 == f0 } else { exists|f: Seq<u8>| captured(f0, f, ps.drop_last()) && #[trigger] epb_step(f, f1, ps.last()) }
    }
    pub broadcast proof fn lem_captured(f0: Seq<u8>, f: Seq<u8>, f1: Seq<u8>, ps: Seq<Seq<u8>>, p: Seq<u8>)
        requires #[trigger] captured(f0, f, ps), #[trigger] epb_step(f, f1, p),
        ensures captured(f0, f1, ps.push(p)),
    {
        reveal_with_fuel(captured, 1);
        assert(ps.push(p).drop_last() =~= ps);
        assert(ps.push(p).last() == p);
        assert(captured(f0, f, ps.push(p).drop_last()) && epb_step(f, f1, ps.push(p).last()));
    }
    pub broadcast proof fn lem_captured_none(f: Seq<u8>, ps: Seq<Seq<u8>>)
        requires ps.len() == 0,
        ensures #[trigger] captured(f, f, ps),
    { reveal_with_fuel(captured, 1); }
    /// The capture of the connection holds the packets ps more.
    pub open spec fn capture(w0: WG, w1: WG, file: Option<&pcapng::File>, ps: Seq<Seq<u8>>) -> bool {
        match file {
            Some(f) => captured(file_of(w0, f.file.fid()), file_of(w1, f.file.fid()), ps)
                && w1.files.remove(f.file.fid()) =~= w0.files.remove(f.file.fid()),
            None => w1.files == w0.files,
        }
    }
    }
}
