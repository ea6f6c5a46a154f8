// ---- control flow of a function's code, as WebAssembly defines it (no loops)
/// A scope: where it was opened (-1: the function's own), by an `if` or not, and where its `else` is if that was passed.
pub struct Scope { pub open: int, pub is_if: bool, pub alt: Option<int> }
/// The scopes around instruction k, outermost first.
pub open spec fn scopes(code: Seq<Instruction>, k: int) -> Seq<Scope> decreases k {
    if k <= 0 { seq![Scope { open: -1, is_if: false, alt: None }] } else {
        let s = scopes(code, k - 1);
        match code[k - 1] {
            Instruction::Block(_) => s.push(Scope { open: k - 1, is_if: false, alt: None }),
            Instruction::If(_) => s.push(Scope { open: k - 1, is_if: true, alt: None }),
            Instruction::Else => s.update(s.len() - 1, Scope { alt: Some(k - 1), ..s[s.len() - 1] }),
            Instruction::End => s.subrange(0, s.len() - 1),
            _ => s,
        }
    }
}
pub open spec fn in_range(code: Seq<Instruction>, k: int, l: u32) -> bool { l < scopes(code, k).len() }
pub open spec fn shaped_at(code: Seq<Instruction>, k: int) -> bool {
    let s = scopes(code, k);
    &&& s.len() >= 1
    &&& match code[k] {
        Instruction::Loop(_) => false,
        Instruction::Else => s[s.len() - 1].is_if && s[s.len() - 1].alt is None,
        Instruction::Br(l) => in_range(code, k, l),
        Instruction::BrIf(l) => in_range(code, k, l),
        Instruction::BrTable(t) => in_range(code, k, t.default) && forall|i: int| 0 <= i < t.table@.len() ==> in_range(code, k, #[trigger] t.table@[i]),
        _ => true,
    }
}
/// What WebAssembly's validation says of the nesting of a function's code; and there is no loop.
pub open spec fn shaped(code: Seq<Instruction>) -> bool {
    &&& 1 <= code.len() < u32::MAX
    &&& forall|k: int| 0 <= k < code.len() ==> #[trigger] shaped_at(code, k)
    &&& scopes(code, code.len() as int).len() == 0
}
pub open spec fn jumping(i: Instruction) -> bool { i is Br || i is BrIf || i is BrTable || i is Return || i is Unreachable }
/// Instructions with a price of their own.
pub open spec fn charged(i: Instruction) -> bool { !jumping(i) && !(i is If) && !(i is Else) && !(i is End) }
pub open spec fn label_of(i: Instruction, l: int) -> bool {
    match i {
        Instruction::Br(x) => l == x,
        Instruction::BrIf(x) => l == x,
        Instruction::BrTable(t) => l == t.default || exists|x: int| 0 <= x < t.table@.len() && #[trigger] t.table@[x] == l,
        _ => false,
    }
}
/// The instruction i may jump to the end of the scope d (0: the function).
pub open spec fn aims(code: Seq<Instruction>, i: int, d: int) -> bool { 0 <= i < code.len() && aim(code[i], scopes(code, i).len() as int, d) }
pub open spec fn aim(i: Instruction, depth: int, d: int) -> bool { if i is Return || i is Unreachable { d == 0 } else { label_of(i, depth - 1 - d) } }
/// e is the `end` of the scope opened at o.
pub open spec fn closes(code: Seq<Instruction>, e: int, o: int) -> bool { 0 <= e < code.len() && code[e] is End && scopes(code, e)[scopes(code, e).len() - 1].open == o }
pub open spec fn jumps(code: Seq<Instruction>, i: int, d: int, j: int) -> bool { aims(code, i, d) && closes(code, j - 1, scopes(code, i)[d].open) }
/// After instruction i the next one may be j (the code's length: the function is left).
pub open spec fn step(code: Seq<Instruction>, i: int, j: int) -> bool {
    &&& 0 <= i < j <= code.len()
    &&& if jumping(code[i]) { (code[i] is BrIf && j == i + 1) || exists|d: int| #[trigger] jumps(code, i, d, j) }
        else if code[i] is If { j == i + 1 || (code[j - 1] is Else && top(code, j - 1).open == i) || (closes(code, j - 1, i) && top(code, j - 1).alt is None) }
        else if code[i] is Else { closes(code, j - 1, top(code, i).open) }
        else { j == i + 1 }
}
pub open spec fn top(code: Seq<Instruction>, k: int) -> Scope { scopes(code, k)[scopes(code, k).len() - 1] }
// ---- executions of a function's code and ways through its blocks
pub open spec fn steps_at(code: Seq<Instruction>, q: Seq<int>, i: int) -> bool { step(code, q[i], q[i + 1]) }
/// q: the instructions of an execution, from a until b.
pub open spec fn run(code: Seq<Instruction>, q: Seq<int>, a: int, b: int) -> bool { q.len() >= 1 && q[0] == a && q[q.len() - 1] == b && forall|i: int| 0 <= i < q.len() - 1 ==> #[trigger] steps_at(code, q, i) }
pub type Prices = spec_fn(Instruction) -> int;
pub open spec fn price_at(code: Seq<Instruction>, pr: Prices, i: int) -> int { if charged(code[i]) { pr(code[i]) } else { 0 } }
/// What an execution costs.
pub open spec fn cost(code: Seq<Instruction>, pr: Prices, q: Seq<int>) -> int decreases q.len() { if q.len() <= 1 { 0 } else { cost(code, pr, q.drop_last()) + price_at(code, pr, q[q.len() - 2]) } }
/// Sums too large for a machine word are given as the largest word.
pub open spec fn sat(n: int) -> int { if n <= usize::MAX { n } else { usize::MAX as int } }
/// t is the price of the most expensive execution.
pub open spec fn dearest(code: Seq<Instruction>, pr: Prices, t: int) -> bool {
    &&& forall|q: Seq<int>| #[trigger] run(code, q, 0, code.len() as int) ==> sat(cost(code, pr, q)) <= t
    &&& exists|q: Seq<int>| #[trigger] run(code, q, 0, code.len() as int) && sat(cost(code, pr, q)) == t
}
