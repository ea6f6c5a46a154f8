// ---- executions and ways through the blocks
pub proof fn run_push(code: Seq<Instruction>, pr: Prices, q: Seq<int>, a: int, i: int, j: int)
    requires run(code, q, a, i), step(code, i, j)
    ensures run(code, q.push(j), a, j), cost(code, pr, q.push(j)) == cost(code, pr, q) + price_at(code, pr, i)
{
    let r = q.push(j);
    assert forall|x: int| 0 <= x < r.len() - 1 implies #[trigger] steps_at(code, r, x) by { if x < q.len() - 1 { assert(steps_at(code, q, x)); } }
    assert(r.drop_last() =~= q);
}
pub proof fn run_pop(code: Seq<Instruction>, q: Seq<int>, a: int, j: int)
    requires run(code, q, a, j), q.len() >= 2
    ensures run(code, q.drop_last(), a, q[q.len() - 2]), step(code, q[q.len() - 2], j)
{
    let r = q.drop_last();
    assert forall|x: int| 0 <= x < r.len() - 1 implies #[trigger] steps_at(code, r, x) by { assert(steps_at(code, q, x)); }
    assert(steps_at(code, q, q.len() - 2));
}
pub proof fn run_unshift(code: Seq<Instruction>, q: Seq<int>, i: int, j: int, b: int)
    requires run(code, q, j, b), step(code, i, j)
    ensures run(code, seq![i] + q, i, b)
{
    let r = seq![i] + q;
    assert forall|x: int| 0 <= x < r.len() - 1 implies #[trigger] steps_at(code, r, x) by { if x > 0 { assert(steps_at(code, q, x - 1)); } }
}
// some execution leads to the end
pub proof fn open_scope(code: Seq<Instruction>, k: int, d: int)
    requires shaped(code), 0 <= k < code.len(), 0 <= d < scopes(code, k).len()
    ensures scopes(code, k + 1).len() > d ==> scopes(code, k + 1)[d].open == scopes(code, k)[d].open,
        scopes(code, k + 1).len() <= d ==> code[k] is End && scopes(code, k).len() == d + 1,
{ assert(shaped_at(code, k)); }
pub proof fn closing(code: Seq<Instruction>, k: int, d: int) -> (e: int)
    requires shaped(code), 0 <= k <= code.len(), 0 <= d < scopes(code, k).len()
    ensures k <= e < code.len(), closes(code, e, scopes(code, k)[d].open)
    decreases code.len() - k
{
    open_scope(code, k, d);
    if scopes(code, k + 1).len() <= d { k } else { closing(code, k + 1, d) }
}
pub proof fn some_run(code: Seq<Instruction>, i: int) -> (q: Seq<int>)
    requires shaped(code), 0 <= i <= code.len()
    ensures run(code, q, i, code.len() as int)
    decreases code.len() - i
{
    if i == code.len() { seq![i] } else {
        assert(shaped_at(code, i));
        let j = if jumping(code[i]) {
            let d = target(code, i);
            let e = closing(code, i, d);
            if e == i { assert(false); }
            assert(jumps(code, i, d, e + 1));
            e + 1
        } else if code[i] is Else {
            let e = closing(code, i, scopes(code, i).len() - 1);
            if e == i { assert(false); }
            e + 1
        } else { i + 1 };
        assert(step(code, i, j));
        let q = some_run(code, j);
        run_unshift(code, q, i, j, code.len() as int);
        seq![i] + q
    }
}
/// One scope the jump at i goes to.
pub proof fn target(code: Seq<Instruction>, i: int) -> (d: int)
    requires shaped(code), 0 <= i < code.len(), jumping(code[i])
    ensures 0 <= d < scopes(code, i).len(), aims(code, i, d)
{
    assert(shaped_at(code, i));
    let n = scopes(code, i).len() as int;
    match code[i] {
        Instruction::Br(l) => n - 1 - l,
        Instruction::BrIf(l) => n - 1 - l,
        Instruction::BrTable(t) => n - 1 - t.default,
        _ => 0,
    }
}
// blocks
pub proof fn blk_mono(code: Seq<Instruction>, blk: Seq<int>, k: int, i: int, j: int)
    requires blocked(code, blk, k), 0 <= i <= j <= k
    ensures 1 <= blk[i] <= blk[j]
    decreases j
{ if j > 0 { assert(follows(code, blk, j - 1)); if i < j { blk_mono(code, blk, k, i, j - 1); } else { blk_mono(code, blk, k, 0, j - 1); } } }
/// The summed prices of the instructions of block x among the first k.
pub open spec fn part(code: Seq<Instruction>, pr: Prices, blk: Seq<int>, k: int, x: int) -> int decreases k { if k <= 0 { 0 } else { part(code, pr, blk, k - 1, x) + if blk[k - 1] == x { price_at(code, pr, k - 1) } else { 0 } } }
pub proof fn part_same(code: Seq<Instruction>, pr: Prices, blk: Seq<int>, i: int, k: int, x: int)
    requires 0 <= i <= k, forall|a: int| i <= a < k ==> #[trigger] blk[a] != x
    ensures part(code, pr, blk, k, x) == part(code, pr, blk, i, x)
    decreases k - i
{ if i < k { part_same(code, pr, blk, i, k - 1, x); assert(blk[k - 1] != x); } }
/// No instruction before j is in j's block.
pub open spec fn starts(blk: Seq<int>, j: int) -> bool { j == 0 || blk[j - 1] < blk[j] }
pub proof fn part_start(code: Seq<Instruction>, pr: Prices, blk: Seq<int>, j: int)
    requires blocked(code, blk, code.len() as int), 0 <= j <= code.len(), starts(blk, j)
    ensures part(code, pr, blk, j, blk[j]) == 0
{
    assert forall|a: int| 0 <= a < j implies #[trigger] blk[a] != blk[j] by { blk_mono(code, blk, code.len() as int, a, j - 1); }
    part_same(code, pr, blk, 0, j, blk[j]);
}
/// i is the last instruction of its block.
pub proof fn part_whole(code: Seq<Instruction>, pr: Prices, blk: Seq<int>, i: int)
    requires blocked(code, blk, code.len() as int), 0 <= i < code.len(), blk[i + 1] != blk[i]
    ensures part(code, pr, blk, code.len() as int, blk[i]) == part(code, pr, blk, i, blk[i]) + price_at(code, pr, i)
{
    assert(follows(code, blk, i));
    assert forall|a: int| i + 1 <= a < code.len() implies #[trigger] blk[a] != blk[i] by { blk_mono(code, blk, code.len() as int, i + 1, a); }
    part_same(code, pr, blk, i + 1, code.len() as int, blk[i]);
}
pub proof fn none_before(code: Seq<Instruction>, pr: Prices, blk: Seq<int>)
    requires blocked(code, blk, code.len() as int)
    ensures part(code, pr, blk, code.len() as int, 0) == 0
{
    let n = code.len() as int;
    assert forall|a: int| 0 <= a < n implies #[trigger] blk[a] != 0 by { blk_mono(code, blk, n, a, a); }
    part_same(code, pr, blk, 0, n, 0);
}
/// A step into another block ends the one and starts the other.
pub proof fn crossing(code: Seq<Instruction>, blk: Seq<int>, i: int, j: int)
    requires blocked(code, blk, code.len() as int), step(code, i, j), blk[i] != blk[j]
    ensures blk[i + 1] != blk[i], starts(blk, j), blk[i] < blk[j]
{
    let n = code.len() as int;
    assert(follows(code, blk, i)); assert(follows(code, blk, j - 1));
    blk_mono(code, blk, n, i, j);
    if blk[j - 1] == blk[j] { assert(within(code, blk, j - 1)); assert(step(code, i, j - 1 + 1)); }
}
pub open spec fn hop_at(code: Seq<Instruction>, blk: Seq<int>, p: Seq<int>, i: int) -> bool { link(code, blk, code.len() as int, p[i], p[i + 1]) }
/// A way through the blocks.
pub open spec fn hops(code: Seq<Instruction>, blk: Seq<int>, p: Seq<int>, x: int, y: int) -> bool { p.len() >= 1 && p[0] == x && p[p.len() - 1] == y && forall|i: int| 0 <= i < p.len() - 1 ==> #[trigger] hop_at(code, blk, p, i) }
pub open spec fn tally(code: Seq<Instruction>, pr: Prices, blk: Seq<int>, p: Seq<int>) -> int decreases p.len() { if p.len() == 0 { 0 } else { tally(code, pr, blk, p.drop_last()) + part(code, pr, blk, code.len() as int, p.last()) } }
pub proof fn hops_push(code: Seq<Instruction>, blk: Seq<int>, p: Seq<int>, x: int, y: int, z: int)
    requires hops(code, blk, p, x, y), link(code, blk, code.len() as int, y, z)
    ensures hops(code, blk, p.push(z), x, z), p.push(z).drop_last() == p
{
    let r = p.push(z);
    assert forall|i: int| 0 <= i < r.len() - 1 implies #[trigger] hop_at(code, blk, r, i) by { if i < p.len() - 1 { assert(hop_at(code, blk, p, i)); } }
    assert(r.drop_last() =~= p);
}
/// Every execution runs along a way through the blocks.
pub proof fn run_hops(code: Seq<Instruction>, pr: Prices, blk: Seq<int>, q: Seq<int>, j: int) -> (p: Seq<int>)
    requires blocked(code, blk, code.len() as int), run(code, q, 0, j), code.len() >= 1
    ensures 0 <= j <= code.len(), hops(code, blk, p, 0, blk[j]), p.len() >= 1, tally(code, pr, blk, p.drop_last()) + part(code, pr, blk, j, blk[j]) == cost(code, pr, q)
    decreases q.len()
{
    if q.len() == 1 {
        let p = seq![0int, 1int];
        assert(hop_at(code, blk, p, 0));
        assert(p.drop_last() =~= seq![0int]);
        assert(seq![0int].drop_last() =~= Seq::<int>::empty());
        none_before(code, pr, blk);
        reveal_with_fuel(tally, 2);
        p
    } else {
        run_pop(code, q, 0, j);
        let i = q[q.len() - 2];
        let p = run_hops(code, pr, blk, q.drop_last(), i);
        if blk[i] == blk[j] {
            blk_mono(code, blk, code.len() as int, i, i + 1); blk_mono(code, blk, code.len() as int, i + 1, j);
            assert(follows(code, blk, i));
            assert(within(code, blk, i));
            p
        } else {
            crossing(code, blk, i, j);
            part_whole(code, pr, blk, i); part_start(code, pr, blk, j);
            assert(crosses(code, blk, code.len() as int, i, j, blk[i], blk[j]));
            hops_push(code, blk, p, 0, blk[i], blk[j]);
            assert(p.last() == blk[i]);
            p.push(blk[j])
        }
    }
}
/// Within a block an execution goes on from j to i.
pub proof fn run_along(code: Seq<Instruction>, pr: Prices, blk: Seq<int>, q: Seq<int>, j: int, i: int) -> (r: Seq<int>)
    requires blocked(code, blk, code.len() as int), run(code, q, 0, j), 0 <= j <= i <= code.len(), blk[j] == blk[i]
    ensures run(code, r, 0, i), cost(code, pr, r) - part(code, pr, blk, i, blk[i]) == cost(code, pr, q) - part(code, pr, blk, j, blk[j])
    decreases i - j
{
    let n = code.len() as int;
    if i == j { q } else {
        blk_mono(code, blk, n, j, i - 1); blk_mono(code, blk, n, i - 1, i);
        let r = run_along(code, pr, blk, q, j, i - 1);
        assert(follows(code, blk, i - 1));
        assert(within(code, blk, i - 1));
        assert(step(code, i - 1, i - 1 + 1));
        run_push(code, pr, r, 0, i - 1, i);
        r.push(i)
    }
}
/// Every way through the blocks is that of an execution.
pub proof fn hops_run(code: Seq<Instruction>, pr: Prices, blk: Seq<int>, p: Seq<int>, y: int) -> (r: (Seq<int>, int))
    requires blocked(code, blk, code.len() as int), hops(code, blk, p, 0, y), p.len() >= 2, code.len() >= 1
    ensures 0 <= r.1 <= code.len(), blk[r.1] == y, starts(blk, r.1), run(code, r.0, 0, r.1), cost(code, pr, r.0) == tally(code, pr, blk, p.drop_last())
    decreases p.len()
{
    let n = code.len() as int;
    let x = p[p.len() - 2]; let b = p.drop_last();
    assert(hop_at(code, blk, p, p.len() - 2));
    assert(hops(code, blk, b, 0, x)) by { assert forall|i: int| 0 <= i < b.len() - 1 implies #[trigger] hop_at(code, blk, b, i) by { assert(hop_at(code, blk, p, i)); } }
    assert(b.last() == x);
    if p.len() == 2 {
        none_before(code, pr, blk);
        assert(b.drop_last() =~= Seq::<int>::empty());
        reveal_with_fuel(tally, 2);
        assert(tally(code, pr, blk, b) == 0);
        if y != 1 { let (i, j) = choose|i: int, j: int| #[trigger] crosses(code, blk, n, i, j, 0, y); blk_mono(code, blk, n, i, i); }
        (seq![0int], 0)
    } else {
        let (q, j) = hops_run(code, pr, blk, b, x);
        blk_mono(code, blk, n, j, j);
        let (i, k) = choose|i: int, k: int| #[trigger] crosses(code, blk, n, i, k, x, y);
        crossing(code, blk, i, k);
        if i < j { blk_mono(code, blk, n, i, j - 1); assert(false); }
        let r = run_along(code, pr, blk, q, j, i);
        part_start(code, pr, blk, j); part_whole(code, pr, blk, i);
        run_push(code, pr, r, 0, i, k);
        (r.push(k), k)
    }
}
pub proof fn whole_way(code: Seq<Instruction>, pr: Prices, blk: Seq<int>, q: Seq<int>) -> (p: Seq<int>)
    requires blocked(code, blk, code.len() as int), run(code, q, 0, code.len() as int), code.len() >= 1
    ensures hops(code, blk, p, 0, blk[code.len() as int]), tally(code, pr, blk, p) == cost(code, pr, q)
{ let p = run_hops(code, pr, blk, q, code.len() as int); assert(p.last() == blk[code.len() as int]); p }
pub proof fn whole_run(code: Seq<Instruction>, pr: Prices, blk: Seq<int>, p: Seq<int>) -> (q: Seq<int>)
    requires blocked(code, blk, code.len() as int), hops(code, blk, p, 0, blk[code.len() as int]), code.len() >= 1
    ensures run(code, q, 0, code.len() as int), tally(code, pr, blk, p) == cost(code, pr, q)
{
    let n = code.len() as int;
    blk_mono(code, blk, n, n, n);
    let (q, j) = hops_run(code, pr, blk, p, blk[n]);
    let r = run_along(code, pr, blk, q, j, n);
    part_start(code, pr, blk, j);
    assert(p.last() == blk[n]);
    r
}
pub proof fn links_up(code: Seq<Instruction>, blk: Seq<int>, x: int, y: int)
    requires blocked(code, blk, code.len() as int), link(code, blk, code.len() as int, x, y)
    ensures 0 <= x < y <= blk[code.len() as int]
{
    let n = code.len() as int;
    if x == 0 && y == 1 { blk_mono(code, blk, n, 0, n); } else {
        let (i, j) = choose|i: int, j: int| #[trigger] crosses(code, blk, n, i, j, x, y);
        crossing(code, blk, i, j); blk_mono(code, blk, n, i, i); blk_mono(code, blk, n, j, n);
    }
}
