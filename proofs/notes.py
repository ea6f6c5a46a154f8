"""Per property: technique (MANIFEST), note (MANIFEST level_note), and the text of DESIGN.md."""
V = "Verus contracts on functions extracted from /repo on every run; search on the real code for failing inputs"
K = "Kani harnesses (contracts over symbolic inputs, unwinding complete) on the real crates; search on the real code for failing inputs"

N = {
"C01": dict(
    technique=V,
    note="Proved for all histories: every Storage method refines a map with pending, saved and committed parts. Assumed: SQLite per statement, HashMap, hash function without collisions.",
    theorems=["Storage::get", "Storage::get_by_hash", "Storage::upsert", "Storage::upsert_by_hash", "Storage::checkpoint", "Storage::rollback", "Storage::commit"],
    text="""Unit `storage.rs`. Ghost view of `Storage`: `pending`, `saved` (maps), the database (layers with root, completeness flag and values) and
`current()`: pending over saved over committed layers. Contracts: `get/get_by_hash` return `current()[hash(key)]`; `upsert` inserts exactly one key into
pending; `checkpoint` moves pending into saved, `rollback` empties pending and nothing else; `commit` with pending writes returns `DirtyChanges` and changes
nothing, otherwise turns saved into the next layer, `current()` unchanged. The SQL of each is compiled into the contract of its call. Histories are
sequences of these calls, so the property holds for all of them by induction over the contracts; tests sample a few histories."""),
"C02": dict(
    technique=V,
    note="Proved: historical reads, rewind (contents, root, later layers and saved writes gone, refusals). GlobalState's thin wrappers are searched, not proved.",
    theorems=["Storage::get_by_hash_historical", "Storage::rewind", "Storage::assert_layer_id_is_complete"],
    text="""Unit `storage.rs`, same view. `get_by_hash_historical(k, l)` returns the value of k in the contents of layer l, which `commit` and `upsert` are proved not to
change; `rewind(l)` refuses dirty state and incomplete layers and otherwise makes the database exactly its part up to l, saved empty, root and number those of l."""),
"C03": dict(
    technique=V,
    note="Proved: the root is the xor-fold of the contents' hashes (a function of the contents and the layer's parity), for any order and any number of saves. Distinctness of roots is up to hash collisions.",
    theorems=["Storage::layer_fingerprint", "xor_fingerprint", "hash_key_value_pair", "Storage::checkpoint", "Storage::commit"],
    text="""Unit `storage.rs` with roots on: invariant of `Storage`: the incremental fingerprint equals `F(contents) xor parity(layer)`, where F folds `hash(key ++ value)`
over the finite map `contents`; lemmas show the fold independent of order and that overwriting removes the old pair. So equal contents and number give equal roots, and a
change of contents changes F's argument (and, hash collisions apart, F)."""),
"C04": dict(
    technique=V,
    note="Proved with a crash invariant: every single SQL write leads to a database that reopening maps to the last complete layer. Assumed: a statement is atomic and durable.",
    theorems=["Storage::new_with_pool", "Storage::delete_bad_layers", "Storage::commit", "Storage::rewind", "Storage::insert_layer"],
    text="""Unit `storage.rs` with crashes on: the database carries a ghost predicate `allowed` over its states; *every* write (and every subset of a concurrent batch of
inserts) has to establish it, so a crash at any point between statements leaves an allowed state; `commit` and `rewind` are verified with `allowed` = "reopening gives the old or the new
last complete layer". `new_with_pool` is proved to map any such state to that layer, deleting incomplete ones. The search kills real processes inside commits."""),
"C05": dict(
    technique=V,
    note="Proved for every layout with positive sizes, at the level of keys of the storage contracts. Assumed: injective formatting of keys, codec of the account records.",
    theorems=["AccountStorage::get_var", "AccountStorage::get_var_vec", "AccountStorage::set_var_bytes", "AccountStorage::set_balance", "AccountStorage::set_counter", "AccountStorage::create", "var_segments"],
    text="""Unit `account.rs`: key-building functions, `var_segments` and segment arithmetic (32-byte cells), `get_var`/`set_var` and the typed accessors, `create`, `load`, `set_balance`,
`set_counter`. `set_var` ensures: exactly the bytes `[offset, offset+size)` of that account's byte space change, nothing else under any key; `get_var` returns those bytes, zeros where never written;
lemmas: keys of different accounts, cells and fields differ. The `format!` strings become contracts."""),
"C06": dict(
    technique=V,
    note="Proved for Runtime::transfer, svm_transfer and every other vmcall and runtime step: the sum of balances is an invariant except where an account is (re)created.",
    theorems=["Runtime::transfer", "Runtime::increase_balance", "svm_transfer", "Runtime::call", "Runtime::spawn"],
    text="""Unit `runtime.rs`, parameter coins. Ghost state: map of accounts to balances. The host transfer and `svm_transfer` ensure: on success exactly source −amount, destination +amount (self-transfer: nothing), on
failure nothing; the source of a program's transfer is the account it runs for; a lemma derives constant supply. All vmcalls and all runtime functions carry the frame "no other balance changes"."""),
"C07": dict(
    technique=V,
    note="Proved: every exit of spawn, call and verify, including panics (drop of PendingChanges), either commits a success or leaves contents as at the start. Unwinding is modelled by an explicit guard.",
    theorems=["Runtime::spawn", "Runtime::call", "Runtime::verify", "commit_changes", "Drop@PendingChanges::drop"],
    text="""Unit `runtime.rs`, parameter trace. A wasm execution is any sequence of vmcalls ending in success or trap; a panic can happen in every call that may panic. The contract of `spawn`, `call` and the steps
below: if the receipt isn't a success, the contents after the guard's drop equal the contents before, including saved ones; on success they're what the program did."""),
"C08": dict(
    technique=V,
    note="Proved: the access level checked by every storage-touching vmcall, and the level set around verify, alloc and the called function.",
    theorems=["Inner::storage", "Inner::storage_mut", "Runtime::call_alloc", "Runtime::call_with_alloc", "Runtime::exec", "svm_transfer", "set32", "set64", "store160"],
    text="""Unit `runtime.rs`, parameter mode. Contract of every vmcall: with access denied no variable, balance or account is read or written (reading ends the execution), read-only allows reads only. The runtime's steps
ensure that `svm_alloc` and `svm_verify` run with access denied and the called function with full access. The registrations of vmcalls are compared with the functions under contract on every run (`//@only`)."""),
"C09": dict(
    technique=V,
    note="Proved for spawn, call and their checks by function name; start functions are rejected at deployment (contract of Program::new's caller; searched end to end).",
    theorems=["Runtime::spawn", "Runtime::call", "Runtime::validate_func_usage", "Runtime::ensure_ctor", "Runtime::ensure_not_ctor", "Template::is_ctor"],
    text="""Unit `runtime.rs`, parameter ctor. Ghost record of the functions run. `spawn` ensures that a function other than `svm_alloc` ran only if the template lists it as a constructor; `call` only if not; rejected names run nothing."""),
"C10": dict(
    technique=V,
    note="Proved: GasTank arithmetic, gas checks of deploy and spawn against the prices the code computes (C12 decides those), and that a rejection has no effect.",
    theorems=["GasTank::consume", "Runtime::deploy", "Runtime::spawn", "Runtime::check_gas_for_func"],
    text="""Unit `runtime.rs`, parameter gas. `GasTank::consume` is proved exact (left + consumed = limit, no wrap-around); `deploy` and `spawn` ensure out-of-gas and no effect when the price exceeds the limit, and no out-of-gas when
the limit exceeds it or there is none."""),
"C11": dict(
    technique=V,
    note="Proved for every module: a deploy message validates exactly if its template decodes, its module parses, has no start function, no float instruction, the required exports with their types, at most 2^16 - 1 functions and imports, no loop, no indirect call and no cycle of calls. parity_wasm's parser is a function of the bytes (assumed; the driver feeds it arbitrary bytes).",
    theorems=["Runtime::validate_deploy", "validate_wasm", "ProgramValidator::add_call", "ProgramVisitor@ProgramValidator::on_op", "try_topological_sort", "CallGraph::find_cycles", "validate_opcode", "module_validate_exports", "export_func_signature", "Program::new", "Imports::read"],
    text="""Unit `rules.rs` (with `graph.inc`, `program.inc`). The graph of `Rc<RefCell<Node>>` is an explicit heap from labels to nodes; `wf` says both ends of an edge know of it. Contracts of every function of `graph/node.rs`, `graph/mod.rs`, `graph/builder.rs`;
`try_topological_sort` ensures: Ok gives every node once, each after its predecessors (a lemma: so there is no cycle); Err only where a cycle exists (lemma: a finite graph whose nodes all have a predecessor has one). `ProgramVisitor::visit` is verified once per
visitor (the default method instantiated for `ProgramValidator`, `OpcodeValidator` and the function counter); its invariant: the edges are exactly the calls of the functions and instructions visited. `validate_wasm` ensures Ok iff every instruction obeys the rules and no
chain of calls returns to its start; `validate_opcode` Ok iff the instruction has no floating-point operand or result, over all 172 instructions; `module_validate_exports` Ok iff both exports are there with the exact types, each a function the module itself defines;
`Program::new` Ok iff all of its conditions, with the functions numbered after the imports; `Runtime::validate_deploy` puts them together. None can panic (unwrap, index, overflow are obligations)."""),
"C12": dict(
    technique=V,
    note="Proved from the instructions to the price table, for every program that validates: the control-flow graph has exactly the steps WebAssembly allows, the longest path is exact, and functions are priced after those they call. Sums saturate at the largest word, as in the property. The shape of validated code (nesting, labels) is a precondition.",
    theorems=["build_func_cfg", "on_jump", "CFGBuilder::resolve_jumps", "CFGBuilder::exit_scope", "compute_max_weight_path", "prune_unreachable_nodes", "NodeWeight::relax", "construct_path", "compute_block_price", "build_weighted_graph", "max_is_dearest", "compute_func_price", "ProgramVisitor@ProgramPricing::on_end", "ProgramPricing::run"],
    text="""Units `cfg.rs`, `weight.rs`, `pricing.rs` (with `flow.inc`, `blocks.inc`, `paths.inc`, `price.inc`). `flow.inc` defines, independently of the code, the scopes around every instruction, which instruction may follow which (`step`: branches go behind the `end` of
their scope, `if` to the first instruction, behind `else` or behind `end`, `else` behind the `end`, return and unreachable out of the function), executions (`run`), their cost and `dearest`. `cfg.rs`: `build_func_cfg` ensures `depicts`: the blocks divide the charged instructions in order, inside
a block control only runs straight on, and two blocks are joined exactly if some step leads from the one to the other; every function of `cfg/` is under contract, the invariant relates open scopes, pending jumps and pending `if` edges to the code read so far. `weight.rs`:
`build_weighted_graph` ensures node weights = saturated sums of the prices of the block's instructions and arcs = edges; `compute_max_weight_path` ensures that its total is the maximum over all paths from start to end (invariants: pruning keeps every path from the start; a node is relaxed only when all its
predecessors have been; dependencies attain the maximum and dominate every path); lemmas turn executions into paths and back with equal cost, so `compute_func_price` ensures `dearest`. `pricing.rs`: `on_end` pops the topological order from its end, so the prices of all callees are known and final; `run` ensures
`priced`: every function has a price and it is that of its dearest execution under the final table. Termination of all loops is proved."""),
"C13": dict(
    technique=V,
    note="Proved for every codec under svm-codec that messages, receipts, templates and their sections use: decode(encode(v) ++ rest) = (v, rest) for all encodable v and all rest. Calldata/JSON codecs are not part of it.",
    theorems=["Codec@Envelope::decode", "Codec@Context::decode", "Codec@SpawnAccount::decode", "Codec@Transaction::decode", "Codec@DeployReceipt::decode", "Codec@SpawnReceipt::decode", "Codec@CallReceipt::decode", "SectionsEncoder::finish", "decode_sections"],
    text="""Unit `codec.rs`, parameter round. Every type with a `Codec` implementation gets a mathematical value `V`, the set `ok` of encodable values, the byte string `enc(v)` and an equality `same`. Contract of every `encode`: it appends exactly `enc`;
of every `decode`: whenever the unread input is `enc(v) ++ t` with `ok(v)`, it returns a value `same` as v and leaves exactly t. Composite codecs are proved from the contracts of their parts, lists by loop invariants over the suffix still to be read. `enc` of
envelopes and contexts spells out the documented layout and its fixed size. Failed receipts: messages are cut at a character boundary before the 255-byte prefix; logs are kept. `decode_sections` is proved for every filter of section kinds
(skipped sections are exactly jumped over), `template::encode/decode` on top. `enc` of a set of touched addresses is the list of its elements in ascending order, a
function of the set: two equal receipts have the same bytes on every node, whatever order the hash set iterates in (an `encode` that writes iteration order is refuted)."""),
"C14": dict(
    technique=V,
    note="Proved for the same decoders and every byte string: no panic, no overflow, no reservation above 2^16 items, and a decoded value's own encoding is no longer than the bytes consumed (so a strict prefix is never taken for the whole).",
    theorems=["ReadExt::read_bytes", "Codec@Vec::decode", "Codec@Layout::decode", "SectionsDecoder::next_preview", "SectionsDecoder::skip_section", "decode_sections", "Codec@SpawnReceipt::decode"],
    text="""Unit `codec.rs`, parameter tight: no precondition on the input of any `decode`. Panics (`unwrap`, `assert!`, `todo!`, slice lengths, arithmetic overflow) are obligations; reserving takes at most 2^16 items, so memory is proportional to the bytes
read; the accounting clause `unread after + |enc(result)| <= unread before` bounds what a decoder can return by what it consumed and excludes accepting a truncated encoding as the complete value."""),
"C15": dict(
    technique=V,
    note="Proved for all ids and sizes whose sum fits 32 bits.",
    theorems=["FixedLayout::from_byte_sizes", "FixedLayout::new", "FixedLayout::get", "FixedLayout::try_get"],
    text="""Unit `layout.rs`: builder, `from_byte_sizes`, `get`, iteration. Postcondition of the constructors: ids consecutive from the first, offset 0 first, offset[i+1] = offset[i] + size[i]; `get(id)` requires a known id (it panics otherwise) and
returns that variable. Disjointness is a lemma over it."""),
"C16": dict(
    technique=K,
    note="Complete for every listed type (all values); arrays of 1 to 10 items; tuples of 2 to 6. Quick tier proves decoding of arrays of 1, 2 and 8 items, thorough all.",
    theorems=[],
    text="""Kani harnesses `proofs/kani/sdk/abi.rs` over the real `abi-encoder`, `abi-decoder` and `sdk-types` crates: for a symbolic value, encode gives the specified bytes and `byte_size` their number ≤ the maximum; decode of those bytes followed by anything
returns value and type and consumes exactly them."""),
"C17": dict(
    technique=K,
    note="Complete: all pairs of 64-bit operands, all twelve operators and the comparisons; that a representable product doesn't abort is proved in the thorough tier only.",
    theorems=[],
    text="""Kani harnesses `proofs/kani/sdk/amount.rs`: postcondition of each operator against 128-bit arithmetic: returns the exact result or aborts, and doesn't abort when representable."""),
"C18": dict(
    technique=K,
    note="Lists of u8 and u16 items with symbolic capacity up to 2^24 and symbolic length (representation invariant, so all histories); strings up to 8 bytes and digits complete; concatenation of longer strings is searched.",
    theorems=[],
    text="""Kani harnesses `proofs/kani/list` on `sdk-std`: each list operation is checked from an arbitrary state satisfying the representation invariant (any capacity, any length), with a ghost copy of one arbitrary position as frame: push, pop,
indexing, slices, clear, iteration. Number formatting: digits and short strings for all values."""),
"C19": dict(
    technique=V,
    note="All 20 exported functions, the panic barrier, the results and the tracker of runtimes; what runs behind the barrier is under contract for the case that it returns (the runtime's operations themselves uninterpreted).",
    theorems=["catch_unwind_or_fail", "Drop@svm_result_t::drop", "Clone@svm_result_t::clone", "svm_result_t::unwrap", "ResourceTracker::free", "svm_runtime_create::guarded", "svm_runtime_action::guarded"],
    text="""Unit `ffi.rs`: every exported function is proved not to panic outside `catch_unwind` (whatever is not behind the barrier must be total; the list of exported functions is compared with the functions under contract on every run). Results over a ghost heap of
buffers: a result owns at most one live buffer with the size and capacity it is freed with; constructors and `clone` add exactly one buffer, reading changes nothing, `unwrap`, `drop` and `svm_free_result` free exactly their own. Tracker: the handles known are
exactly the runtimes alive; `alloc` adds a new one, `free` destroys exactly that one and refuses others, `get` gives only living ones, `count` is their number. Unit `ffi_ops.rs`: the bodies behind the barrier, over a ghost log of calls to runtimes: when a body
returns, the handle is known, exactly the operation asked for was made, with exactly the caller's bytes and numbers (128-bit counters joined and split by bit-vector proof), and the result is an error exactly if that operation failed, else its receipt.
The search drives the exported functions with valid, stale, null and invented handles, broken messages and bad paths, beside a twin runtime operated directly; freed memory is scribbled over, memory in use is watched."""),
}
NA = {
"C20": "Determinism relates two executions of the whole runtime including the wasmer compilers and hash-map iteration order (a 2-run hyperproperty over JIT-compiled code); neither verifier can take wasmer or SQLite within reach, and a contract on one execution cannot state it. The part that is per-function (the root depends on the contents only) is C03.",
}

CAUGHT = {
"s01-skip-unchanged-write": "proof (Storage::upsert_by_hash), search", "s02-rewind-same-layer": "proof (Storage::rewind), search",
"s03-resaved-key-root": "proof (Storage::checkpoint), search", "s04-complete-before-values": "proof (Storage::commit), search",
"s05-last-segment-overwritten": "proof (AccountStorage::set_var_bytes), search", "s06-transfer-clamped": "proof (svm_transfer), search",
"s07-commit-before-returndata": "proof (Runtime::exec), search", "s08-alloc-can-read": "proof (Runtime::call_alloc), search",
"s09-ctor-binary-search": "search (the proof loses binary_search_by)", "s10-oog-after-create": "proof (Runtime::spawn), search",
"s11-call-target-range": "proof (ProgramVisitor@ProgramValidator::on_op), search", "s12-fallthrough-dominates": "search (the proof loses the added loop)", "s13-string-trims-nul": "search (the proof has no contract for trim_end_matches)", "s14-truncated-number": "search (the proof loses the loop)",
"s15-offset-u16": "proof (FixedLayout::from_byte_sizes), search", "s16-sign-extend-3-bytes": "proof (Kani), search",
"s17-sub-assign-saturates": "proof (Kani), search", "s18-push-str-128": "search",
"s19-counter-saturates": "proof (svm_get_account::guarded), search", "s19-handle-key-32-bits": "proof (ResourceTracker::alloc, get, free), search"}
