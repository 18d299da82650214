// ---- what the commands of the streams ask for ----
/// q is q0 and, behind it, the frames that commands t[n0..] ask for, in order (the ends of queues: no frame).
pub open spec fn asked(q: Seq<Frame>, q0: Seq<Frame>, t: Seq<(StreamId, Option<StreamCommand>)>, n0: int) -> bool
    decreases t.len()
{
    if t.len() <= n0 || t.len() == 0 { q =~= q0 } else {
        match t.last().1 {
            Some(StreamCommand::SendFrame(f)) => q.len() > 0 && q.last() == f && asked(q.drop_last(), q0, t.drop_last(), n0),
            Some(StreamCommand::CloseStream { ack }) => q.len() > 0 && is_close(q.last(), t.last().0, ack) && asked(q.drop_last(), q0, t.drop_last(), n0),
            None => asked(q, q0, t.drop_last(), n0),
        }
    }
}
pub broadcast proof fn asked_more(q: Seq<Frame>, q0: Seq<Frame>, t: Seq<(StreamId, Option<StreamCommand>)>, n0: int, c: (StreamId, Option<StreamCommand>))
    requires #[trigger] asked(q, q0, t, n0), n0 <= t.len()
    ensures
        c.1 is None ==> asked(q, q0, #[trigger] t.push(c), n0),
        forall|f: Frame| (match c.1 { Some(StreamCommand::SendFrame(g)) => f == g, Some(StreamCommand::CloseStream { ack }) => is_close(f, c.0, ack), None => false })
            ==> asked(#[trigger] q.push(f), q0, t.push(c), n0),
{
    assert(t.push(c).drop_last() =~= t);
    assert forall|f: Frame| (match c.1 { Some(StreamCommand::SendFrame(g)) => f == g, Some(StreamCommand::CloseStream { ack }) => is_close(f, c.0, ack), None => false })
            implies asked(#[trigger] q.push(f), q0, t.push(c), n0) by { assert(q.push(f).drop_last() =~= q); }
}
pub open spec fn class(f: Frame) -> int { if f.header.kind is Data || f.header.kind is WindowUpdate { 0 } else if f.header.kind is GoAway || f.header.flags.ack { 1 } else { 2 } }
/// The frames of one class: 0 for the streams, 1 answers to the peer, 2 pings.
#[verifier::opaque]
pub open spec fn of(s: Seq<Frame>, c: int) -> Seq<Frame>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { let r = of(s.drop_last(), c); if class(s.last()) == c { r.push(s.last()) } else { r } } }
pub broadcast proof fn of_push(s: Seq<Frame>, f: Frame)
    ensures
        #![trigger s.push(f)]
        of(s.push(f), 0) == if class(f) == 0 { of(s, 0).push(f) } else { of(s, 0) },
        of(s.push(f), 1) == if class(f) == 1 { of(s, 1).push(f) } else { of(s, 1) },
        of(s.push(f), 2) == if class(f) == 2 { of(s, 2).push(f) } else { of(s, 2) },
{
    reveal_with_fuel(of, 2);
    assert(s.push(f).drop_last() =~= s);
}
