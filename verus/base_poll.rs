// ---- what the streams of an active connection ask for ----
spec fn dropped(f: Frame, id: StreamId, s: State) -> bool {
    f.body@ == Seq::<u8>::empty() && match s {
        State::Open { .. } => f.header == (Header { flags: Flags { rst: true, ..flags(false, false, false) }, ..Header::new(Tag::Data, id, 0) }),
        State::RecvClosed => f.header == (Header { flags: flags(false, false, true), ..Header::new(Tag::Data, id, 0) }),
        _ => false,
    }
}
spec fn tells(s: State) -> bool { s is Open || s is RecvClosed }
/// q is q0 and, behind it, one frame for each command t[n0..], in order; for the end of a queue the frame
/// that the state of the stream (in d[m0..], in order) asks for, if any.
#[verifier::opaque]
spec fn due(q: Seq<Frame>, q0: Seq<Frame>, t: Seq<(StreamId, Option<StreamCommand>)>, n0: int, d: Seq<Shared>, m0: int) -> bool
    decreases t.len()
{
    if t.len() <= n0 || t.len() == 0 { q =~= q0 && d.len() == m0 } else {
        match t.last().1 {
            Some(StreamCommand::SendFrame(f)) => q.len() > 0 && q.last() == f && due(q.drop_last(), q0, t.drop_last(), n0, d, m0),
            Some(StreamCommand::CloseStream { ack }) => q.len() > 0 && is_close(q.last(), t.last().0, ack) && due(q.drop_last(), q0, t.drop_last(), n0, d, m0),
            None => d.len() > 0 && if tells(d.last().state) {
                q.len() > 0 && dropped(q.last(), t.last().0, d.last().state) && due(q.drop_last(), q0, t.drop_last(), n0, d.drop_last(), m0)
            } else {
                due(q, q0, t.drop_last(), n0, d.drop_last(), m0)
            },
        }
    }
}
/// The frame that goes with a command.
spec fn fits(f: Frame, c: (StreamId, Option<StreamCommand>)) -> bool {
    match c.1 { Some(StreamCommand::SendFrame(g)) => f == g, Some(StreamCommand::CloseStream { ack }) => is_close(f, c.0, ack), None => false }
}
broadcast proof fn due_more(q: Seq<Frame>, q0: Seq<Frame>, t: Seq<(StreamId, Option<StreamCommand>)>, n0: int, d: Seq<Shared>, m0: int, c: (StreamId, Option<StreamCommand>))
    requires due(q, q0, t, n0, d, m0), n0 <= t.len()
    ensures
        #![trigger due(q, q0, t, n0, d, m0), t.push(c)]
        forall|f: Frame| fits(f, c) ==> due(#[trigger] q.push(f), q0, t.push(c), n0, d, m0),
        c.1 is None ==> forall|s: Shared, f: Frame| tells(s.state) && dropped(f, c.0, s.state) ==> due(#[trigger] q.push(f), q0, t.push(c), n0, #[trigger] d.push(s), m0),
        c.1 is None ==> forall|s: Shared| !tells(s.state) ==> due(q, q0, t.push(c), n0, #[trigger] d.push(s), m0),
{
    reveal_with_fuel(due, 2);
    assert(t.push(c).drop_last() =~= t);
    assert forall|f: Frame| fits(f, c) implies due(#[trigger] q.push(f), q0, t.push(c), n0, d, m0) by { assert(q.push(f).drop_last() =~= q); }
    if c.1 is None {
        assert forall|s: Shared, f: Frame| tells(s.state) && dropped(f, c.0, s.state) implies due(#[trigger] q.push(f), q0, t.push(c), n0, #[trigger] d.push(s), m0)
            by { assert(q.push(f).drop_last() =~= q); assert(d.push(s).drop_last() =~= d); }
        assert forall|s: Shared| !tells(s.state) implies due(q, q0, t.push(c), n0, #[trigger] d.push(s), m0) by { assert(d.push(s).drop_last() =~= d); }
    }
}
/// Commands after which another stream may be opened.
spec fn frees(c: (StreamId, Option<StreamCommand>)) -> bool {
    match c.1 { Some(StreamCommand::SendFrame(f)) => f.header.flags.fin, _ => true }
}
#[verifier::opaque]
spec fn freed(t: Seq<(StreamId, Option<StreamCommand>)>, n0: int) -> bool { exists|i: int| n0 <= i < t.len() && frees(#[trigger] t[i]) }
spec fn opt(o: Option<Frame>) -> Seq<Frame> { match o { Some(f) => seq![f], None => Seq::empty() } }
broadcast proof fn slot_sent(s: Seq<Frame>, f: Frame)
    ensures #![trigger s + opt(Some(f))] s + opt(Some(f)) =~= s.push(f), (s + opt(Some(f))).drop_last() =~= s
{}
broadcast proof fn slot_empty(s: Seq<Frame>)
    ensures #![trigger s + opt(None)] s + opt(None) =~= s
{}
broadcast proof fn freed_more(t: Seq<(StreamId, Option<StreamCommand>)>, n0: int, c: (StreamId, Option<StreamCommand>))
    requires 0 <= n0 <= t.len()
    ensures #![trigger freed(t.push(c), n0)] freed(t.push(c), n0) <==> freed(t, n0) || frees(c)
{
    reveal(freed);
    if freed(t, n0) { let i = choose|i: int| n0 <= i < t.len() && frees(#[trigger] t[i]); assert(frees(t.push(c)[i])); }
    if frees(c) { assert(frees(t.push(c)[t.len() as int])); }
    if freed(t.push(c), n0) { let i = choose|i: int| n0 <= i < t.len() + 1 && frees(#[trigger] t.push(c)[i]); if i < t.len() { assert(frees(t[i])); } }
}
spec fn is_pong(f: Frame, id: u32) -> bool {
    f.header == (Header { flags: flags(false, true, false), ..Header::new(Tag::Ping, StreamId(0), id) }) && f.body@ == Seq::<u8>::empty()
}
spec fn asks(f: Frame) -> bool { f.header.kind is Ping && !f.header.flags.ack }
spec fn is_ping(f: Frame) -> bool { asks(f) && f.header.id.0 == 0 }
/// q is q0 and, behind it, the answers to the frames g[n0..]: a ping gets its pong (one that names a
/// stream, if there is such a stream), any other frame nothing or a GoAway.
#[verifier::opaque]
spec fn answered(q: Seq<Frame>, q0: Seq<Frame>, g: Seq<Frame>, n0: int) -> bool
    decreases g.len()
{
    if g.len() <= n0 || g.len() == 0 { q =~= q0 }
    else if is_ping(g.last()) { q.len() > 0 && is_pong(q.last(), g.last().header.len) && answered(q.drop_last(), q0, g.drop_last(), n0) }
    else { answered(q, q0, g.drop_last(), n0) || q.len() > 0 && (q.last().header.kind is GoAway || asks(g.last()) && is_pong(q.last(), g.last().header.len)) && answered(q.drop_last(), q0, g.drop_last(), n0) }
}
broadcast proof fn answered_more(q: Seq<Frame>, q0: Seq<Frame>, g: Seq<Frame>, n0: int, f: Frame)
    requires answered(q, q0, g, n0), n0 <= g.len()
    ensures
        #![trigger answered(q, q0, g, n0), g.push(f)]
        !is_ping(f) ==> answered(q, q0, g.push(f), n0) && forall|a: Frame| a.header.kind is GoAway || asks(f) && is_pong(a, f.header.len) ==> answered(#[trigger] q.push(a), q0, g.push(f), n0),
        is_ping(f) ==> forall|a: Frame| is_pong(a, f.header.len) ==> answered(#[trigger] q.push(a), q0, g.push(f), n0),
{
    reveal_with_fuel(answered, 2);
    assert(g.push(f).drop_last() =~= g);
    assert forall|a: Frame| true implies (#[trigger] q.push(a)).drop_last() =~= q && q.push(a).last() == a by {}
}
broadcast proof fn group_skip(s: Seq<Frame>, f: Frame, n: int)
    requires 0 <= n <= s.len()
    ensures #![trigger s.push(f).skip(n)] s.push(f).skip(n) =~= s.skip(n).push(f)
{}
broadcast proof fn due_none(q: Seq<Frame>, q0: Seq<Frame>, t: Seq<(StreamId, Option<StreamCommand>)>, n0: int, d: Seq<Shared>, m0: int)
    requires n0 == t.len(), q =~= q0, d.len() == m0
    ensures #[trigger] due(q, q0, t, n0, d, m0)
{ reveal(due); }
broadcast proof fn answered_none(q: Seq<Frame>, q0: Seq<Frame>, g: Seq<Frame>, n0: int)
    requires n0 == g.len(), q =~= q0
    ensures #[trigger] answered(q, q0, g, n0)
{ reveal(answered); }
broadcast proof fn freed_none(t: Seq<(StreamId, Option<StreamCommand>)>, n0: int)
    requires n0 == t.len()
    ensures !#[trigger] freed(t, n0)
{ reveal(freed); }
