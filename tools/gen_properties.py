#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
H="crates/host/"; W="crates/wasm/"
P=[]
def prop(id,title,statement,over,qtext,why,files,state,mech,observe,hook="none"):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=x,meaning=x,where=files[0]) for x in state],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[observe],hook_needed=hook)))
prop("C01","Reads return the latest surviving write of each key",
 "After any sequence of writes, saves, rollbacks and commits, reading a key of the global state returns the value of the last write to that key that was not rolled back, or nothing when there is none. A rollback discards exactly the writes made since the last save; saved and committed values are never lost or altered by it. A commit is refused while unsaved writes exist, and then changes nothing.",
 ["histories","inputs"],"every interleaving of write/save/rollback/commit/read over any keys and values",
 "Tests run a handful of fixed sequences; the guarantee is about every history and every pair of keys.",
 [H+"state/src/storage.rs",H+"state/src/global_state.rs"],["dirty changes","saved changes of the next layer","values and layers tables"],
 [("three-level lookup",H+"state/src/storage.rs get_by_hash"),("save",H+"state/src/storage.rs checkpoint"),("rollback",H+"state/src/storage.rs rollback"),("commit",H+"state/src/storage.rs commit")],
 "values returned by account/template reads through the public state API")
prop("C02","Historical reads and rewinds reproduce past layers exactly",
 "Reading at a committed layer returns exactly what was current when that layer was committed, whatever is written, committed or rolled back later. Rewinding to a committed layer makes contents, root and layer number exactly those of that layer, forgets every later layer and every saved write, and lets new layers be built on top. Rewinding is refused while unsaved writes exist, and to a layer that was never committed.",
 ["histories","inputs"],"every history of commits and rewinds, every layer, every key (including account variables)",
 "Tests check one or two layers and one key; holding for every layer of every history is quantification over histories.",
 [H+"state/src/storage.rs",H+"state/src/global_state.rs",H+"state/src/account_storage.rs"],["layers and values tables","next layer number"],
 [("historical lookup",H+"state/src/storage.rs get_by_hash_historical"),("rewind",H+"state/src/storage.rs rewind"),("layer query parameter",H+"state/src/global_state.rs read_and_decode")],
 "values read with the layer query parameter set, and current layer/root after a rewind")
prop("C03","The state root is determined by the stored contents",
 "Two databases whose committed layers have the same number and hold the same keys and values have the same root, no matter in which order, in how many saves or in how many commits the contents were written. Changing, adding or overwriting any value changes the root, and restoring the old contents restores it (at layers of the same parity).",
 ["histories","inputs"],"every pair of histories reaching equal (or different) contents, up to hash collisions",
 "It relates pairs of histories; tests compare one pair.",
 [H+"state/src/storage.rs"],["layer fingerprints","fingerprint of pending changes"],
 [("incremental XOR fingerprint",H+"state/src/storage.rs checkpoint"),("layer fingerprint",H+"state/src/storage.rs commit"),("key-value hash",H+"state/src/storage.rs hash_key_value_pair")],
 "roots returned by commit and current layer")
prop("C04","Reopening a database restores its last complete layer",
 "Opening an existing database gives the contents, root and layer number of the last layer whose commit completed, and work can go on from there as if the process had never stopped. A commit interrupted at any point leaves no visible trace: its values are never returned and its layer number is used again.",
 ["crash_points","histories"],"every history, every point between the individual database statements of a commit, any number of reopenings",
 "Tests never reopen a database nor stop in the middle of a commit.",
 [H+"state/src/storage.rs",H+"state/src/resources/schema.sql"],["layers.complete flag","values of incomplete layers"],
 [("open",H+"state/src/storage.rs new_with_pool"),("cleanup",H+"state/src/storage.rs delete_bad_layers"),("two-phase commit",H+"state/src/storage.rs commit")],
 "a second state object opened on the same file")
prop("C05","Account fields and variables are isolated, exact and zero by default",
 "Reading a variable of an account returns the bytes last written to that variable of that account, or zeros when it was never written, for every layout. Writing one variable changes no other variable, no other account and no other field; setting the balance or the counter leaves name, template, variables and the other number alone.",
 ["inputs","histories"],"every layout (any sizes, any alignment to the storage segments), every variable, every sequence of writes over several accounts",
 "Bugs need particular offsets (values crossing a segment border); tests use one layout.",
 [H+"state/src/account_storage.rs",H+"runtime/src/vmcalls/storage.rs"],["32-byte variable segments","mutable account record"],
 [("segment split",H+"state/src/account_storage.rs var_segments"),("variable write",H+"state/src/account_storage.rs set_var_bytes"),("variable read",H+"state/src/account_storage.rs get_var"),("program access",H+"runtime/src/vmcalls/storage.rs")],
 "account storage API and the storage host functions")
prop("C06","Coin transfers never create or destroy coins",
 "A transfer, made by the host or by a running program, moves exactly the requested amount from the source to the destination and changes no other balance, so the total supply is constant. When the source lacks the funds, the destination does not exist or its balance would overflow, nothing changes and the operation fails; a transfer to oneself changes nothing. A program can only spend the coins of its own account.",
 ["inputs","histories"],"every amount, every pair of accounts (equal or not), every balance",
 "Overflow, self-transfer and insufficient-funds corners are single points of a 2^128-sized space.",
 [H+"runtime/src/runtime/runtime.rs",H+"runtime/src/vmcalls/transfer.rs",H+"state/src/account_storage.rs"],["balances"],
 [("host transfer",H+"runtime/src/runtime/runtime.rs transfer"),("program transfer",H+"runtime/src/vmcalls/transfer.rs svm_transfer")],
 "balances of all accounts before and after")
prop("C07","A failed transaction leaves no trace in the state",
 "When spawning or calling fails for any reason (trap, panic in a host function, missing function, wrong function, out of gas), no variable, balance or account changes, and later commits contain nothing of it. Changes made by earlier transactions and not yet committed are kept.",
 ["histories","inputs"],"every failing program and point of failure, any sequence of succeeding and failing transactions",
 "Needs failures after partial effects inside arbitrary histories.",
 [H+"runtime/src/runtime/runtime.rs"],["unsaved changes of the global state"],
 [("rollback guard",H+"runtime/src/runtime/runtime.rs exec_call"),("saving earlier changes",H+"runtime/src/runtime/runtime.rs spawn, call, verify")],
 "all balances, variables and accounts after the failed receipt")
prop("C08","No storage access while access is denied",
 "While verifying a transaction and while allocating memory for its input, a program can neither read nor write its variables nor move coins: any attempt aborts it with no effect. In read-only mode, reads work and every write or transfer aborts. Full access is back when the called function itself runs.",
 ["inputs","programs"],"every host function in every access mode, every program",
 "The combinations of host function, mode and phase are not enumerated by tests.",
 [H+"runtime/src/func_env.rs",H+"runtime/src/vmcalls/storage.rs",H+"runtime/src/vmcalls/transfer.rs",H+"runtime/src/runtime/runtime.rs"],["access mode"],
 [("mode checks",H+"runtime/src/func_env.rs storage, storage_mut"),("mode switch around allocation",H+"runtime/src/runtime/runtime.rs call_alloc"),("mode of a transaction",H+"runtime/src/runtime/runtime.rs verify, call, call_ctor")],
 "whether a host call aborts and what state changed")
prop("C09","Constructors run at spawn and only at spawn",
 "Spawning runs only a function its template lists as a constructor; any other name is rejected, whatever else the template contains. Calling an account never runs a function listed as a constructor.",
 ["inputs"],"every template, every list of constructors, every function name",
 "Tests use one or two names; near-miss names and list positions are unbounded.",
 [H+"runtime/src/runtime/runtime.rs",H+"types/src/template"],["constructors section"],
 [("spawn check",H+"runtime/src/runtime/runtime.rs ensure_ctor"),("call check",H+"runtime/src/runtime/runtime.rs ensure_not_ctor")],
 "receipts and effects of spawn and call")
prop("C10","Deploying and spawning respect the gas limit",
 "A deployment or spawn whose price exceeds the gas limit fails with out-of-gas and has no effect, and one whose limit exceeds the price (or, for a deployment, equals it) is not rejected for gas; without a limit gas never runs out. Consuming gas never wraps around: what is left plus what was consumed equals the limit.",
 ["inputs"],"every message length, function price and 64-bit gas limit (a limit equal to the price is left open for spawning)",
 "Boundary values of 64-bit quantities.",
 [H+"runtime/src/runtime/runtime.rs",H+"runtime/src/runtime/gas_tank.rs",H+"gas/src/lib.rs",H+"types/src/gas"],["gas tank"],
 [("consumption",H+"runtime/src/runtime/gas_tank.rs consume"),("deploy price check",H+"runtime/src/runtime/runtime.rs deploy"),("spawn price check",H+"runtime/src/runtime/runtime.rs spawn")],
 "receipts and state after deploy/spawn")
prop("C11","Only programs obeying the fixed-gas rules pass validation",
 "Deployment validation rejects every program that contains a floating-point instruction, a loop, an indirect call or a cycle of calls (direct or through other functions), or that does not itself define the required exported functions with their exact signatures. Programs free of all that are accepted. Validation answers for every byte string: it never crashes.",
 ["programs","inputs"],"every WebAssembly module, every position of the offending instruction, every shape of call graph",
 "The set of offending instructions and call graphs is far larger than the sampled ones.",
 [H+"program/src/lib.rs",H+"program/src/program.rs",H+"gas/src/validation.rs",H+"gas/src/graph/cycle.rs",H+"gas/src/graph/sort.rs"],["call graph"],
 [("opcode check",H+"program/src/lib.rs validate_opcode"),("exports check",H+"program/src/program.rs module_validate_exports"),("fixed-gas rules",H+"gas/src/validation.rs on_op"),("cycles",H+"gas/src/graph/cycle.rs")],
 "result of validating a deploy message")
prop("C12","A function's price is that of its most expensive execution path",
 "The computed price of every function of a valid program is the maximum, over all paths of its control flow, of the summed instruction prices, where a call costs the price of the called function or import and the branching and scope-closing instructions (if, else, end, br, br_if, br_table, return, unreachable) are themselves free. No execution can cost more, and pricing succeeds for every valid program. (A price too large for a machine word is given as the largest word.)",
 ["programs"],"every loop-free, recursion-free program (nesting of blocks, branches, dead code)",
 "The number of control-flow shapes is unbounded.",
 [H+"gas/src/pricing/mod.rs",H+"gas/src/pricing/cfg.rs",H+"gas/src/graph/weight.rs",H+"gas/src/cfg/builder.rs"],["weighted control-flow graph"],
 [("longest path",H+"gas/src/graph/weight.rs compute_max_weight_path"),("relaxation",H+"gas/src/graph/weight.rs relax"),("control flow",H+"gas/src/cfg/builder.rs")],
 "prices per function")
prop("C13","Encoding then decoding gives back the same data",
 "Every envelope, context, spawn and call message, template with its sections, and receipt that can be encoded is decoded back to an equal one, consuming exactly the encoded bytes (a gas amount of zero stands for none, and over-long error messages are cut). Envelopes and contexts have the documented layout: fields in order, big-endian, fixed size. Every receipt can be encoded, and its logs are kept; equal receipts have equal encodings.",
 ["inputs"],"every value of every field within the encodable limits",
 "Field values and their combinations are unbounded; tests use fixed samples.",
 [H+"codec/src/codec.rs",H+"codec/src/receipt",H+"codec/src/section",H+"codec/src/template.rs"],[],
 [("field codecs",H+"codec/src/codec.rs"),("receipts",H+"codec/src/receipt"),("sections",H+"codec/src/section")],
 "decoded value and cursor position")
prop("C14","Decoding arbitrary bytes never crashes",
 "Decoding any byte string as any message, template, section or receipt either succeeds or returns an error; it never panics, and never needs memory out of proportion to the input. A strict prefix of an encoding is never accepted as that same complete value.",
 ["inputs"],"every byte string, including truncations and corruptions of valid encodings",
 "Inputs come from the network: all byte strings, not only well-formed ones.",
 [H+"codec/src/codec.rs",H+"codec/src/ext.rs",H+"codec/src/receipt",H+"codec/src/section"],[],
 [("bounded reads",H+"codec/src/ext.rs"),("section decoding",H+"codec/src/section/decode.rs"),("error receipts",H+"codec/src/receipt/error.rs")],
 "whether decoding returns")
prop("C15","Variables of a layout are contiguous and never overlap",
 "In a layout built from a first id and a list of sizes, ids are consecutive, the first variable starts at offset zero, and each next variable starts exactly where the previous one ends, so no two variables share a byte. Looking up an id of the layout returns that variable with its own size; any other id is refused.",
 ["inputs"],"every list of sizes and first id whose totals fit",
 "All lengths and sizes.",
 [H+"layout/src/fixed.rs"],[],
 [("construction",H+"layout/src/fixed.rs from_byte_sizes"),("lookup",H+"layout/src/fixed.rs get")],
 "id, offset and size of the layout's variables")
prop("C16","Program input data round-trips and its size is announced exactly",
 "Every boolean, integer, amount, address, optional value, tuple and small array encoded for a program is decoded by it to the same value and type, in order. The announced size is exactly the number of bytes written, and never exceeds the announced maximum.",
 ["inputs"],"all values of all supported types, arrays of up to ten elements",
 "64-bit value spaces and type combinations.",
 [W+"abi-encoder/src/types",W+"abi-decoder/src/decoder.rs",W+"abi-layout/src/lib.rs"],[],
 [("integers",W+"abi-encoder/src/types/numeric.rs"),("arrays",W+"abi-encoder/src/types/small_array.rs"),("decoding",W+"abi-decoder/src/decoder.rs")],
 "decoded values, number of bytes written")
prop("C17","Amount arithmetic is exact or aborts",
 "Adding, subtracting and multiplying coin amounts in a program gives the exact mathematical result; when it cannot be represented the program aborts instead of wrapping around. Comparisons agree with the numbers.",
 ["inputs"],"all pairs of 64-bit amounts",
 "2^128 pairs.",
 [W+"sdk-types/src/amount.rs"],[],[("checked arithmetic",W+"sdk-types/src/amount.rs")],"result or abort")
prop("C18","The program library's containers and number formatting are exact",
 "The fixed-capacity list behaves like a list: pushes beyond capacity abort, reads and pops return what was pushed in order, nothing outside it is touched. Converting numbers to decimal or hexadecimal text gives the exact digits, and text is concatenated without loss.",
 ["inputs","histories"],"every capacity, every sequence of operations, every number",
 "Unbounded sequences and 64-bit numbers.",
 [W+"sdk-std/src/vec.rs",W+"sdk-std/src/string"],[],
 [("list",W+"sdk-std/src/vec.rs"),("digits",W+"sdk-std/src/string")],"contents of lists and texts")
prop("C19","The C interface lets no failure cross it, frees exactly and conveys faithfully",
 "Every exported C function returns an error result instead of unwinding into its caller, whatever the input bytes, the runtime handle and earlier failures. Each result owns its buffer: copying, reading, unwrapping and freeing results frees every buffer exactly once. A runtime handle works from its creation until it is destroyed, any other is refused, and the number of runtimes is exact. With a valid handle a function does to that runtime exactly what the operation it stands for does with the same arguments, and reports exactly its outcome.",
 ["inputs","histories"],"every sequence of calls of the exported functions, every handle, every input bytes",
 "Tests call a few functions once with good arguments; the guarantee is about foreign code's call sequences, failures included.",
 [H+"runtime-ffi/src/c_api.rs",H+"runtime-ffi/src/result.rs",H+"runtime-ffi/src/resource_tracker.rs"],["buffers of results","handles of living runtimes","initialization flag"],
 [("panic barrier",H+"runtime-ffi/src/c_api.rs catch_unwind_or_fail"),("ownership of results",H+"runtime-ffi/src/result.rs"),("handles",H+"runtime-ffi/src/resource_tracker.rs")],"svm_result_t values, memory in use, svm_runtimes_count")
prop("C20","Executing the same transactions twice gives identical results",
 "Two nodes executing the same sequence of transactions on equal states produce the same receipts and roots.",
 ["histories","configurations"],"all histories, all machines",
 "Relates two runs of the whole system.",
 [H+"runtime/src/runtime/runtime.rs"],[],[("execution",H+"runtime/src/runtime/runtime.rs")],"receipts and roots of two runs")
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,p["title"]
        f.write(json.dumps(p)+"\n")
