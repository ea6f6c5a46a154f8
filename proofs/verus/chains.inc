// ---- chains of calls
pub open spec fn calls_along(p: Program, w: Seq<L>) -> bool { forall|i: int| 0 <= i < w.len() - 1 ==> p.calls(#[trigger] w[i], w[i + 1]) }
/// A chain of calls that comes back to where it started.
pub open spec fn recursive(p: Program) -> bool { exists|w: Seq<L>| #[trigger] calls_along(p, w) && w.len() >= 2 && w[0] == w[w.len() - 1] }
pub open spec fn call_arcs(p: Program, n: Map<L, Node>) -> bool { forall|x: L, y: L| #[trigger] arc(n, x, y) <==> p.calls(x, y) }
pub proof fn cycles_are_recursion(p: Program, n: Map<L, Node>)
    requires call_arcs(p, n)
    ensures cyclic(n) <==> recursive(p)
{
    if cyclic(n) {
        let w = choose|w: Seq<L>| #[trigger] way(n, w) && w.len() >= 2 && w[0] == w[w.len() - 1];
        assert forall|i: int| 0 <= i < w.len() - 1 implies p.calls(#[trigger] w[i], w[i + 1]) by { assert(arc(n, w[i], w[i + 1])); }
        assert(calls_along(p, w));
    }
    if recursive(p) {
        let w = choose|w: Seq<L>| #[trigger] calls_along(p, w) && w.len() >= 2 && w[0] == w[w.len() - 1];
        assert forall|i: int| 0 <= i < w.len() - 1 implies arc(n, #[trigger] w[i], w[i + 1]) by { assert(p.calls(w[i], w[i + 1])); }
        assert(way(n, w));
    }
}
/// The edges are the calls of the first k functions, and of the first o instructions of the next one.
pub open spec fn seen(p: Program, n: Map<L, Node>, fs: Seq<L>, k: int, o: int) -> bool {
    forall|x: L, y: L| #[trigger] arc(n, x, y) <==> calls_seen(p, fs, k, o, x, y)
}
pub open spec fn calls_seen(p: Program, fs: Seq<L>, k: int, o: int, x: L, y: L) -> bool {
    exists|j: int, i: int| 0 <= j < fs.len() && (j < k || (j == k && i < o)) && fs[j] == x && #[trigger] p.call_at(fs[j], i, y)
}
pub proof fn seen_next(p: Program, n: Map<L, Node>, fs: Seq<L>, k: int)
    requires 0 <= k < fs.len(), seen(p, n, fs, k, p.code(fs[k]).len() as int)
    ensures seen(p, n, fs, k + 1, 0)
{
    assert forall|x: L, y: L| calls_seen(p, fs, k, p.code(fs[k]).len() as int, x, y) <==> #[trigger] calls_seen(p, fs, k + 1, 0, x, y) by {
        if calls_seen(p, fs, k + 1, 0, x, y) {
            let (j, i) = choose|j: int, i: int| 0 <= j < fs.len() && (j < k + 1 || (j == k + 1 && i < 0)) && fs[j] == x && #[trigger] p.call_at(fs[j], i, y);
            assert(p.call_at(fs[j], i, y));
        }
        if calls_seen(p, fs, k, p.code(fs[k]).len() as int, x, y) {
            let (j, i) = choose|j: int, i: int| 0 <= j < fs.len() && (j < k || (j == k && i < p.code(fs[k]).len() as int)) && fs[j] == x && #[trigger] p.call_at(fs[j], i, y);
            assert(p.call_at(fs[j], i, y));
        }
    }
    assert forall|x: L, y: L| #[trigger] arc(n, x, y) <==> calls_seen(p, fs, k + 1, 0, x, y) by {
        assert(calls_seen(p, fs, k + 1, 0, x, y) <==> calls_seen(p, fs, k, p.code(fs[k]).len() as int, x, y));
    }
}
pub proof fn seen_op(p: Program, n: Map<L, Node>, m: Map<L, Node>, fs: Seq<L>, k: int, o: int)
    requires 0 <= k < fs.len(), 0 <= o < p.code(fs[k]).len(), seen(p, n, fs, k, o),
        forall|x: L, y: L| #[trigger] arc(m, x, y) <==> arc(n, x, y) || (x == fs[k] && p.call_at(fs[k], o, y)),
    ensures seen(p, m, fs, k, o + 1)
{
    assert forall|x: L, y: L| #[trigger] arc(m, x, y) <==> calls_seen(p, fs, k, o + 1, x, y) by {
        if calls_seen(p, fs, k, o + 1, x, y) {
            let (j, i) = choose|j: int, i: int| 0 <= j < fs.len() && (j < k || (j == k && i < o + 1)) && fs[j] == x && #[trigger] p.call_at(fs[j], i, y);
            assert(p.call_at(fs[j], i, y));
            if j < k || i < o { assert(calls_seen(p, fs, k, o, x, y)); assert(arc(n, x, y)); }
        }
        if arc(m, x, y) {
            if arc(n, x, y) {
                assert(calls_seen(p, fs, k, o, x, y));
                let (j, i) = choose|j: int, i: int| 0 <= j < fs.len() && (j < k || (j == k && i < o)) && fs[j] == x && #[trigger] p.call_at(fs[j], i, y);
                assert(p.call_at(fs[j], i, y));
            } else { assert(p.call_at(fs[k], o, y)); }
        }
    }
}
pub proof fn seen_all(p: Program, n: Map<L, Node>, fs: Seq<L>)
    requires fs.to_set() == p.functions@.dom(), seen(p, n, fs, fs.len() as int, 0)
    ensures call_arcs(p, n)
{
    assert forall|x: L, y: L| #[trigger] arc(n, x, y) <==> p.calls(x, y) by {
        if p.calls(x, y) {
            let i = choose|i: int| #[trigger] p.call_at(x, i, y);
            assert(fs.to_set().contains(x));
            let j = choose|j: int| 0 <= j < fs.len() && fs[j] == x;
            assert(p.call_at(fs[j], i, y));
            assert(calls_seen(p, fs, fs.len() as int, 0, x, y));
        }
        if arc(n, x, y) {
            assert(calls_seen(p, fs, fs.len() as int, 0, x, y));
            let (j, i) = choose|j: int, i: int| 0 <= j < fs.len() && (j < fs.len() || (j == fs.len() && i < 0)) && fs[j] == x && #[trigger] p.call_at(fs[j], i, y);
            assert(fs.to_set().contains(fs[j]));
            assert(p.call_at(x, i, y));
        }
    }
}
