"""Which proof units decide which property."""
from . import kani_run, verus_run

T, A = "total", "may_abort"


def sdk_amount(tier):
    ops = ["add", "add_u64", "add_assign", "add_assign_u64", "sub", "sub_u64", "sub_assign", "sub_assign_u64"]
    h = {f"amount::{o}_exact": A for o in ops}
    h.update({f"amount::{o}_total": T for o in ops})
    h["amount::comparisons"] = T
    h.update({f"amount::{o}_exact": A for o in ("mul", "mul_u64", "mul_assign", "mul_assign_u64")})
    if tier == "thorough":  # minutes of SAT solving; the quick tier has the search for this direction
        h.update({f"amount::{o}_total": T for o in ("mul", "mul_u64", "mul_assign", "mul_assign_u64")})
    return kani_run.run("sdk", h, "amount", ["sdk-types/src/amount.rs: all of impl Add, Sub, Mul, AddAssign, SubAssign, MulAssign (Amount and u64), PartialEq, PartialOrd"])


def sdk_abi(tier):
    ints = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "amount"]
    h = {f"abi::encode_{i}": T for i in ints}
    h.update({f"abi::decode_{i}": T for i in ints})
    h.update({f"abi::{x}": T for x in ("encode_maxima", "encode_others", "encode_address", "decode_others", "conversions")})
    h.update({f"abi::tuple_{n}": T for n in range(2, 7)})
    h.update({f"abi::enc_array_{n}": T for n in range(1, 11)})
    h.update({f"abi::nat_array_{n}": T for n in range(1, 11)})
    h.update({f"abi::dec_array_{n}": T for n in (range(1, 11) if tier == "thorough" else (1, 2, 8))})
    return kani_run.run("sdk", h, "abi", [
        "abi-encoder: Encoder::encode, ByteSize::byte_size, max_byte_size of bool, (), i8..u64, Amount, Address, Option, tuples, arrays",
        "abi-decoder/src/decoder.rs: decode_value, decode_primitive, decode_array, read_num; cursor.rs: all; calldata.rs: next, next_1..next_6",
        "sdk-types/src/value.rs: From conversions"])


def sdk_list(tier):
    h = {}
    for t in ("u8", "u16"):
        h.update({f"push_{t}": T, f"push_full_{t}": A, f"pop_{t}": A, f"read_{t}": T, f"other_{t}": T})
    h.update({"strings::short_strings": A, "strings::bytes_and_digits": A, "strings::short_strings_total": T})
    return kani_run.run("list", h, "list", ["sdk-std/src/vec.rs: with_capacity, push, pop, as_slice, as_mut, clear, leak, iter, into_iter, Deref",
                        "sdk-std/src/string/mod.rs: from_byte, new_short, as_bytes", "sdk-std/src/string/digit.rs: to_string"],
                        ["capacities 1 to 2^24, item types u8 and u16 stand for all Copy item types"])


SQL_ASSUMED = [
    "SQLite executes each statement atomically and as proofs/sqlmini.py reads it; foreign keys are on (sqlx's default), so deleting a layer deletes its values",
    "a write that returns an error left the database unchanged; concurrent inserts of one commit take effect in any order, any subset on failure",
    "std HashMap behaves as a finite map; iteration visits every entry once, in any order",
    "Blake3 is a function of the bytes fed to it (collision freedom is not proved: distinct contents have distinct roots only up to hash collisions)",
    "fewer than 2^63 - 2 layers", "async code runs as if sequential: methods hold the state's mutex for their whole body"]
READ = ["Storage::get", "Storage::get_by_hash"]
WRITE = ["Storage::upsert", "Storage::upsert_by_hash", "Storage::checkpoint", "Storage::rollback", "Storage::commit", "Storage::has_uncommitted_changes", "Storage::insert_layer"]
OPEN = ["Storage::new_with_pool", "Storage::delete_bad_layers", "max_layer_id", "Storage::last_layer_id", "Storage::genesis_fingerprint"]
HIST = ["Storage::get_by_hash_historical", "Storage::rewind", "Storage::assert_layer_id_is_complete"]
ROOT = ["Storage::layer_fingerprint", "Storage::last_layer", "hash_key_value_pair", "xor_fingerprint"]


def storage(only, roots, crashes):
    return lambda tier: verus_run.run("storage", only=only, params={"roots": roots, "crashes": crashes}, assumptions=SQL_ASSUMED)


ACCOUNT_ASSUMED = [
    "crate::Storage by the contracts proved in storage.rs, with keys standing for their Blake3 hashes (no collisions)",
    "decimal and hexadecimal notation tell numbers and addresses apart; an address shows as 40 digits",
    "Codec round trip of AccountMut and AccountData (searched for under C13)", "template_layout and TemplateStorage (not under contract)",
    "variables have at least one byte and offset + size <= 2^32 - 1 (layouts of positive sizes, C15)",
    "`&mut [u8]` narrowing is modelled by a cursor over the caller's buffer; a slice of a whole array or vector covers it"]
LAYOUT_ASSUMED = ["the sizes sum up to at most 2^32 - 1 and the ids fit u32 (otherwise the debug build panics on overflow)", "std iterators over slices"]


RUNTIME_ASSUMED = [
    "svm_state by the contracts of storage.rs and account.rs, at the level of accounts; the database does not fail",
    "a wasmer function does nothing to the state but call its imports, which are the registered vmcalls (the registrations in vmcalls/mod.rs are compared with the functions under contract on every run); wasm memory is at most 4 GiB",
    "a panic unwinds (it is caught or ends the process): what was saved and committed stays, and PendingChanges is dropped on the way",
    "the shared handles to one state (GlobalState, Arc<RwLock<Inner>>) are passed as one explicit state; locks are not poisoned and block_on runs its future",
    "Template::from_sections, codecs, Program::new and the price cache are functions of their arguments; none of the errors of mod err is out-of-gas",
    "messages are shorter than 2^53 bytes"]


def runtime(which):
    ks = ["coins", "trace", "mode", "ctor", "gas"]
    assert which in ks
    return lambda tier: verus_run.run("runtime", params={k: str(k == which).lower() for k in ks}, assumptions=RUNTIME_ASSUMED)


CODEC_ASSUMED = [
    "std::io::Cursor: read_exact takes the next byte or fails at the end, peeking does not move; to_be_bytes/from_be_bytes are inverse (big-endian layout defined in the unit)",
    "String is a byte string for which String::from_utf8 succeeds; a prefix cut at a char boundary is again one",
    "HashSet<Address>, HashSet<SectionKind> and IndexMap<SectionKind, _> by contracts: no repetition, any order of iteration (IndexMap: order of first insertion)",
    "clone, to_string, to_vec give an equal value; the From implementations of Section wrap their argument; PhantomData has one value",
    "FixedLayout::iter and Sections::iter visit the items in order; buffers in memory are together at most 2^63 - 1 bytes",
    "schema and API sections have no encoding (todo!() in the code), their decoder always fails: they are never encodable values",
    "the unit's ok() says which values are encodable: lengths fit their prefix, strings are at most 255 bytes (error messages: any, cut), layouts are contiguous"]


def codec(rnd):
    return lambda tier: verus_run.run("codec", params={"round": str(rnd).lower(), "tight": str(not rnd).lower()}, assumptions=CODEC_ASSUMED)


GRAPH_ASSUMED = [
    "Rc<RefCell<Node>> graphs as an explicit heap from labels to nodes (one node per label and graph); RefCell borrow conflicts are not modelled (the driver would show the panic)",
    "IndexSet and IndexMap as finite sets and maps with some order of iteration; node labels are any type with equality (usize stands for it)",
    "derive_cycle gives a cycle report (validation doesn't ask for one); debug_assert! is dropped"]
RULES_ASSUMED = GRAPH_ASSUMED + [
    "parity_wasm 0.42.2: deserialize_buffer is a function of the bytes; its accessors return what the sections hold; a module has less than 2^31 function bodies; its instructions are the 172 listed in program.inc",
    "names of exports are compared as strings (an enumeration of the two literals stands for them); Exports::read succeeds", "svm_codec::template::decode is a function of the bytes (C13, C14)"]


PRICE_ASSUMED = GRAPH_ASSUMED + [
    "WebAssembly's validation (wasmer) and C11 give what `valid` and `shaped` say of a program: scopes are nested and closed, labels are in range, `else` follows an `if`, no loops, no recursion, calls are to imports or functions of the program, imports have the first indexes, at most 2^32 - 2 instructions",
    "a PriceResolver's prices depend on the instruction and on an import's names only (the resolvers of the crate have no other state)",
    "between the units cfg.rs, weight.rs and pricing.rs the contracts of build_func_cfg and compute_func_price are carried over as text",
    "Op, FuncIterator and IndexMap iteration in program.inc; Vec::reverse, saturating_add of std"]


FFI_ASSUMED = [
    "std::panic::catch_unwind lets nothing unwind out of it (the crates are built with panic=unwind; running out of memory or of stack ends the process)",
    "the pointers a caller passes are valid for the sizes the interface documents; a result is given back to svm_free_result unchanged and once",
    "Vec::with_capacity(n) for bytes has capacity n; leak, from_raw_parts, Box::leak and Box::from_raw by contracts over an explicit heap of buffers and runtimes",
    "results are smaller than 4 GiB; destroying a runtime does not panic while the tracker's lock is held; the tracker's HashSet is a finite set",
    "what runs behind the barrier may panic anywhere: its contracts say what holds when it returns; the runtime's own operations are uninterpreted (C06 to C10 say what they do)",
    "between the units ffi.rs and ffi_ops.rs the contracts of ResourceTracker::get, new_error, new_receipt and of the common functions are carried over as text",
    "calls to one runtime are not concurrent"]


def unit(name, assumed, only=None):
    return lambda tier: verus_run.run(name, only=only, assumptions=assumed)


UNITS = {
    "C01": [storage(READ + WRITE + ["Storage::last_layer"], "false", "false")],
    "C02": [storage(READ + WRITE + HIST + ["Storage::last_layer"], "false", "false"), storage(["Storage::rewind", "Storage::last_layer", "Storage::layer_fingerprint"], "true", "false")],
    "C03": [storage(ROOT + ["Storage::checkpoint", "Storage::commit", "Storage::rewind", "Storage::get_by_hash", "Storage::new_with_pool", "Storage::insert_layer", "Storage::genesis_fingerprint"], "true", "false")],
    "C04": [storage(OPEN + ["Storage::commit", "Storage::rewind", "Storage::insert_layer", "Storage::checkpoint"], "false", "true"), storage(["Storage::new_with_pool"], "true", "true")],
    "C05": [unit("account", ACCOUNT_ASSUMED)],
    "C06": [runtime("coins")], "C07": [runtime("trace")], "C08": [runtime("mode")], "C09": [runtime("ctor")], "C10": [runtime("gas")],
    "C11": [unit("rules", RULES_ASSUMED)],
    "C12": [unit("cfg", PRICE_ASSUMED), unit("weight", PRICE_ASSUMED), unit("pricing", PRICE_ASSUMED)],
    "C13": [codec(True)], "C14": [codec(False)],
    "C15": [unit("layout", LAYOUT_ASSUMED)],
    "C16": [sdk_abi], "C17": [sdk_amount], "C18": [sdk_list],
    "C19": [unit("ffi", FFI_ASSUMED), unit("ffi_ops", FFI_ASSUMED)]}


def level(prop):
    return "proof" if UNITS.get(prop) else "exploration"


def trusted_base(prop):
    kani = ["Kani 0.68.0 / CBMC 6.11.0", "rustc (Kani's nightly)", "proofs/overlay.py", "the harnesses' postconditions"]
    verus = ["Verus 0.2026.09.13 and Z3", "tools/extract (syntactic rewrites listed in DESIGN.md)", "proofs/verus_run.py and the rewrites in the unit's template",
             "the contracts marked external_body in proofs/verus/"]
    return kani if prop in ("C16", "C17", "C18") else verus


def prove(prop, tier, work):
    return {"units": [u(tier) for u in UNITS.get(prop, [])]}

