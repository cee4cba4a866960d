#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe or [], hook_needed=hook)))

prop("C01", "Base58 text is canonical and inverts exactly",
 "For every byte string, Base58 encoding yields the canonical Bitcoin Base58 text: one '1' per leading zero byte, then the shortest big-endian base-58 numeral of the remaining value over the Bitcoin alphabet. Decoding any text over that alphabet yields one zero byte per leading '1' followed by the shortest big-endian byte string of its value, so decoding an encoding returns the original bytes; any text containing another byte is rejected with the position of the first offending byte. Encoding or decoding into a caller-supplied buffer gives the same bytes and length whatever the buffer held before, and reports a too-small buffer exactly when the result does not fit.",
 ["inputs"], "all byte strings and texts (up to memory size), all output buffer sizes and prior contents",
 "The two tests sample a dozen fixed strings; the conversion is two nested carry loops whose correctness is an arithmetic invariant over every length, leading-zero count and buffer size.",
 ["src/base58/encode.rs", "src/base58/decode.rs", "src/base58/mod.rs", "src/base_common/alphabet.rs"],
 [("Encoder::encode_into / encode", "src/base58/encode.rs"), ("Decoder::decode_into / decode", "src/base58/decode.rs"), ("Alphabet::new / encode / decode", "src/base_common/alphabet.rs")],
 observe=["base58::encode", "base58::decode", "base58::encode_into", "base58::decode_into"])

prop("C02", "Address text round-trips and only checksummed text is accepted",
 "For every P2PKH or P2SH address, the text form is the Base58 of version byte (0 or 5), the 20-byte hash and the first four bytes of the double SHA-256 of those 21 bytes, and parsing that text gives back the same address. Parsing arbitrary text never panics, and it succeeds only when the text is the Base58 of 25 bytes whose version is 0 or 5 and whose last four bytes are the checksum of the first 21; every other text is an error.",
 ["inputs"], "all addresses, all input strings",
 "No test covers base58check or addresses at all; the guarantee ranges over every 20-byte hash and every user-supplied string.",
 ["src/address.rs", "src/base58_check/encode.rs", "src/base58_check/decode.rs", "src/base58_check/checksum.rs"],
 [("Address::from_string / to_string", "src/address.rs"), ("verify_checksum / decode_into", "src/base58_check/decode.rs"), ("extend_input / encode", "src/base58_check/encode.rs"), ("compute_checksum", "src/base58_check/checksum.rs")],
 observe=["Address::from_string", "Address::to_string", "base58_check::decode", "base58_check::encode"])

prop("C03", "Hex and byte-reversed hex invert exactly",
 "For every byte string, hex encoding yields two lowercase digits per byte in order (the reversed form: in reverse byte order), and decoding accepts exactly the even-length strings of hex digits in either letter case and inverts the corresponding encoding. Odd length, an invalid character (with the position of the first one) and a too-small output buffer are reported as errors, bytes of the output buffer beyond the decoded length are left unchanged, and no input panics.",
 ["inputs"], "all byte strings, all candidate texts, all buffer sizes",
 "The tests use one fixed 11-byte string; case handling, error positions and buffer bounds range over every input.",
 ["src/hex.rs", "src/reverse_hex.rs"],
 [("value / decode_into / decode / encode_iterator", "src/hex.rs"), ("decode / decode_into / encode", "src/reverse_hex.rs")],
 observe=["hex::encode", "hex::decode", "hex::decode_into", "reverse_hex::encode", "reverse_hex::decode", "reverse_hex::decode_into"])

prop("C04", "Base64 encoding is RFC 4648 and decodes back",
 "For every byte string, Base64 encoding yields the RFC 4648 text (standard alphabet, '=' padding to a multiple of four), and decoding that text returns the original bytes. A byte outside the alphabet and '=' is rejected with its position, and encoding or decoding into a caller-supplied buffer gives the same result or reports a too-small buffer exactly when the result does not fit.",
 ["inputs"], "all byte strings (credentials), all buffer sizes; decoding: texts whose unused trailing bits are zero, or that contain an invalid byte",
 "Ten fixed strings are sampled; the bit accumulator must be right for every length and value (the node rejects every request if the credentials are mis-encoded).",
 ["src/base64/encode.rs", "src/base64/decode.rs", "src/base64/mod.rs", "src/base_binary/encode.rs", "src/base_binary/decode.rs", "src/base_common/alphabet.rs"],
 [("Encoder::encode_into / encode", "src/base_binary/encode.rs"), ("Decoder::decode_into / decode", "src/base_binary/decode.rs")],
 observe=["base64::encode", "base64::decode", "base64::encode_into", "base64::decode_into"])

prop("C05", "Scripts are attributed to exactly the right address",
 "An output script is attributed to a P2PKH address exactly when it is the 25-byte script DUP HASH160 <20 bytes> EQUALVERIFY CHECKSIG, to a P2SH address exactly when it is the 23-byte script HASH160 <20 bytes> EQUAL, with precisely those 20 bytes, and to no address otherwise. The stored form of an address is its version byte (0 or 5) followed by the hash; reading any 21-byte string with version 0 or 5 gives that address and anything else is an error, without panicking.",
 ["inputs"], "all scripts of every length, all stored address forms",
 "No test covers script recognition; it ranges over all byte strings.",
 ["src/address.rs"],
 [("Address::from_script", "src/address.rs"), ("Address::from_slice / to_vec", "src/address.rs")],
 observe=["Address::from_script", "Address::from_slice", "Address::to_vec"])

prop("C06", "Binary reading consumes exactly the encoded bytes",
 "Reading a fixed-width little-endian integer, a 32-byte hash, a counted byte string or a Bitcoin variable-length integer (1, 3, 5 or 9 bytes by its first byte) from any position of any buffer returns the encoded value and advances by exactly its encoded size. When a hash is being computed over the read, exactly the consumed bytes are added to it, in order; otherwise it is unaffected.",
 ["inputs"], "all buffers, positions and values (in bounds)",
 "No test exercises the reader; every width and prefix value matters, and an error shifts the parse of everything after it.",
 ["src/hashing_buffer_reader.rs"],
 [("read_buffer", "src/hashing_buffer_reader.rs"), ("read_var_int_le / read_var_buffer_le", "src/hashing_buffer_reader.rs")],
 state=[dict(name="offset", meaning="bytes consumed so far", where="src/hashing_buffer_reader.rs")],
 observe=["HashingBufferReader::*"])

prop("C07", "Transactions parse exactly, with the right txid",
 "For every well-formed serialized transaction, legacy or segwit, parsing returns its inputs (previous txid and index) and its outputs (value and script) in order, consumes exactly its bytes, and identifies it by the double SHA-256 of its witness-free serialization. The result does not depend on the bytes that follow, and a segwit transaction parses to the same inputs, outputs and id as the same transaction without witness data.",
 ["inputs"], "all well-formed transactions with at least one input, any number of inputs, outputs, witness items and any script lengths",
 "No test parses a transaction; counts, lengths and the presence of witness data range over all values.",
 ["src/transaction.rs", "src/hashing_buffer_reader.rs"],
 [("Transaction::from_reader / from_slice", "src/transaction.rs"), ("Hasher", "src/hashing_buffer_reader.rs")],
 observe=["Transaction::from_slice", "Transaction::from_reader"])

prop("C08", "Blocks parse to the right id, parent and transactions",
 "For every serialized block, the block id is the double SHA-256 of its first 80 bytes, the parent id is bytes 4 to 36, and its transactions are exactly the declared number of transactions that follow the header, in order. A block keeps the height it was given and presents its transactions once each in that order.",
 ["inputs"], "all well-formed blocks, any number of transactions",
 "No test parses a block.",
 ["src/block.rs"],
 [("BlockHeader::from_buffer", "src/block.rs"), ("iterate_transactions", "src/block.rs"), ("Block::new / transactions", "src/block.rs")],
 observe=["Block::new", "BlockHeader::from_buffer", "iterate_transactions"])

prop("C09", "Applying blocks yields exactly the unspent-output set",
 "After applying any valid sequence of transactions and blocks to a store, the set of unspent outputs is exactly: all outputs created by them or present before, except those whose script starts with OP_RETURN, minus those spent by some input; each with its created value and the address its script denotes, if any. Coinbase inputs (zero hash, index 0xFFFFFFFF) spend nothing.",
 ["inputs", "histories"], "all valid sequences of transactions and blocks, all prior stores, for the in-memory store and for the store overlay",
 "No test applies a transaction; the guarantee is over whole chains, including outputs created and spent in the same block.",
 ["src/store/transaction_store.rs", "src/store/transaction_store_backend.rs", "src/store/store.rs", "src/hashmap.rs"],
 [("add_transaction / spend_transaction_outputs / add_block", "src/store/transaction_store.rs"), ("IndexedTransactionStoreBackend", "src/store/transaction_store_backend.rs")],
 state=[dict(name="unspent_txo_address_map", meaning="unspent output -> (value, address)", where="src/store/transaction_store_backend.rs")],
 observe=["Store::add_block", "TransactionStore::add_transaction", "has_transaction_output"])

prop("C10", "Per-address listing and balance always match the unspent set",
 "At every moment, the outputs listed for an address are exactly the unspent outputs attributed to it, each exactly once with its value, and its balance is the sum of those values. An address without unspent outputs lists nothing and has balance zero.",
 ["inputs", "histories"], "all histories of adding and spending outputs, all addresses, on the store and on the read view of a store with an overlay",
 "No test covers the address index; it is a redundant structure that must stay coherent through every insert, spend and re-insert.",
 ["src/store/transaction_store_backend.rs", "src/store/transaction_store_backend_trait.rs", "src/store/transaction_store.rs", "src/hashmap.rs"],
 [("add_transaction_output / spend_transaction_output", "src/store/transaction_store_backend.rs"), ("iterate_transaction_outputs", "src/store/transaction_store_backend.rs"), ("balance", "src/store/transaction_store_backend_trait.rs")],
 state=[dict(name="address_unspent_txos_map", meaning="address -> its unspent outputs", where="src/store/transaction_store_backend.rs")],
 observe=["balance", "iterate_transaction_outputs"])

prop("C11", "A spend of a missing output is never silently accepted",
 "When the index or an overlay applies a transaction whose non-coinbase input does not refer to a currently unspent output (never created, already spent, or spent twice within the same transaction or block), processing stops with a failure instead of continuing; applying a transaction whose inputs are all unspent never stops for this reason.",
 ["inputs", "histories"], "all stores and overlays, all transactions",
 "No test covers double spends; the check is one assertion whose truth depends on the whole history.",
 ["src/store/transaction_store.rs", "src/store/transaction_store_backend.rs", "src/store/store.rs"],
 [("spend_transaction_outputs assertion / strict", "src/store/transaction_store.rs"), ("spend_transaction_output", "src/store/transaction_store_backend.rs")],
 observe=["TransactionStore::add_transaction panics"])

prop("C12", "Building in batches equals building block by block",
 "For every valid chain of blocks, building the index by processing batches independently and merging them in order yields the same unspent outputs, address listings, block headers and height as applying the blocks one by one. This holds for every division of the chain into consecutive batches.",
 ["inputs", "configurations"], "all valid chains (no duplicate unspent transaction ids), all batch boundaries, all batch sizes >= 1",
 "No test builds an index; outputs created in one batch and spent in another, or created and spent inside one, must cancel identically for every boundary.",
 ["src/store/store.rs", "src/store/transaction_store.rs", "src/store/transaction_store_backend.rs"],
 [("IntermediaryStore / merge", "src/store/store.rs"), ("IntermediaryTransactionStore::merge", "src/store/transaction_store.rs"), ("IntermediaryTransactionStoreBackend", "src/store/transaction_store_backend.rs"), ("IndexedStore::from_blocks", "src/store/store.rs")],
 observe=["IndexedStore::from_blocks"])

prop("C13", "Parallel work is delivered completely and in order",
 "Cutting a list into batches yields consecutive, non-empty batches of at most the configured size whose concatenation is the list. Results computed on several threads are handed over exactly once each and in input order, whatever order the threads finish in.",
 ["schedules", "inputs", "configurations"], "all lists, batch sizes >= 1, completion orders and thread counts",
 "No test covers batching or the ordered pool; completion order is a scheduling outcome.",
 ["src/batcher.rs", "src/sequential_thread_pool.rs", "src/thread_pool.rs"],
 [("Batcher::next", "src/batcher.rs"), ("SequentialThreadPool::next", "src/sequential_thread_pool.rs"), ("ThreadPool", "src/thread_pool.rs")],
 state=[dict(name="output_index / outputs", meaning="next index to deliver / results that arrived early", where="src/sequential_thread_pool.rs")],
 observe=["Batcher iterator", "SequentialThreadPool iterator"])

prop("C14", "An overlay is the base with its changes, and leaves the base alone",
 "An overlay over a store reports as unspent exactly the base's unspent outputs that it has not spent plus those added to it and not spent since, and spending through it succeeds exactly for those. Reading a store through a recorded overlay lists for each address exactly the overlay's view; without an overlay it lists the store itself; creating and changing an overlay never changes the base.",
 ["inputs", "histories"], "all bases (including overlays on overlays), all sequences of additions and spends, all addresses",
 "No test covers overlays; the guarantee is over every interleaving of adds and spends across the two layers.",
 ["src/store/transaction_store_backend.rs", "src/store/transaction_store.rs", "src/store/store.rs"],
 [("AugmentedTransactionStoreBackend", "src/store/transaction_store_backend.rs"), ("ReadonlyAugmentedTransactionStoreBackend", "src/store/transaction_store_backend.rs")],
 state=[dict(name="spent_txos", meaning="base outputs spent in the overlay", where="src/store/transaction_store_backend.rs")],
 observe=["has_transaction_output", "spend_transaction_output", "iterate_transaction_outputs"])

prop("C15", "A query at c confirmations sees exactly the chain at that depth",
 "With N the configured number of confirmations and the index in step with the node, a balance or output query at c confirmations reflects exactly the chain up to and including the block that has c confirmations, for 1 <= c <= N. At c = 0 it reflects all blocks plus the accepted mempool transactions.",
 ["inputs", "histories", "configurations"], "all tails of recent blocks, mempools, N >= 1 and 0 <= c <= N, also while a write of the index is waited for",
 "No test covers it; several indices must agree between the part that builds the views and the part that selects one.",
 ["src/last_blocks.rs", "src/state.rs"],
 [("LastBlocks::augmentation(s) / last_augmentation / pop", "src/last_blocks.rs"), ("State::compute_update / apply_update / augmented_store", "src/state.rs")],
 state=[dict(name="augmentations", meaning="one overlay per depth", where="src/state.rs"), dict(name="blocks", meaning="recent blocks not yet in the base", where="src/last_blocks.rs")],
 observe=["State::balance", "State::transaction_outputs_array", "State::iterate_transaction_outputs"])

prop("C16", "The recent blocks always continue the stored chain, across reorgs",
 "The recent blocks always form an unbroken chain on top of the stored one: the first one's parent is the last stored block, each later one's parent is its predecessor, and heights are consecutive. A fetched block is appended exactly when its parent is the current last block; otherwise the current last block is dropped and the fetched block is not kept; blocks move into the store oldest first, leaving one fewer than the configured confirmations.",
 ["inputs", "histories"], "all sequences of blocks a node may present, including reorganisations",
 "No test covers reorganisations; the invariant must hold after every step of every history.",
 ["src/last_blocks.rs", "src/block.rs"],
 [("BlockUpdater::add_block / last_block_hash / height / next_block / update", "src/last_blocks.rs"), ("LastBlocks::pop", "src/last_blocks.rs")],
 state=[dict(name="blocks", meaning="recent blocks, oldest first", where="src/last_blocks.rs")],
 observe=["LastBlocks::update_blocks", "LastBlocks::pop"])

prop("C17", "Saving and loading the index loses nothing",
 "Writing the index to its file and reading that file back yields an index with the same block headers in the same order, the same unspent outputs with the same values and addresses (outputs without an address included), and the same answers per address.",
 ["inputs"], "all indexes with fewer than 2^32 headers and outputs",
 "No test writes or reads a store; every value, address kind and absence of an address must survive.",
 ["src/store/store.rs", "src/store/transaction_store_backend.rs", "src/buffer_writer.rs", "src/hashing_buffer_reader.rs", "src/address.rs"],
 [("to_writer / to_file / from_reader / from_file", "src/store/store.rs"), ("to_writer / from_reader", "src/store/transaction_store_backend.rs"), ("BufferWriter", "src/buffer_writer.rs")],
 observe=["IndexedStore::to_file", "IndexedStore::from_file"])

prop("C18", "The longest chain found on disk is the one indexed",
 "From any collection of blocks in any order, including forks and blocks whose ancestors are missing, the selected chain starts at a block whose parent is the zero hash, each block's parent is its predecessor, heights count from zero, every block comes from the collection, and no such chain in the collection is longer.",
 ["inputs"], "all finite collections of blocks with unique ids (no block with the zero id)",
 "No test covers chain selection; forks and order are unbounded.",
 ["src/block_file_reader.rs"],
 [("find_longest_chain", "src/block_file_reader.rs")],
 observe=["BlockFileReader::blocks"])

prop("C19", "Every block in a block file is found at its exact position",
 "Scanning a block file returns one entry per record in file order, up to the end of the file or the first zero marker, with the position and length of the block's bytes and the id and parent from its 80-byte header; reading an entry's transactions reads exactly those bytes.",
 ["inputs"], "all well-formed block files (magic, length, block; optional zero padding of any length at the end)",
 "No test reads a block file; an offset error in one record corrupts all later ones.",
 ["src/block_file_reader.rs", "src/block.rs"],
 [("scan_block_file", "src/block_file_reader.rs"), ("FileBlock::transactions", "src/block_file_reader.rs")],
 observe=["BlockFileReader::blocks", "FileBlock::transactions"])

prop("C20", "The stored block headers are one unbroken chain",
 "In every store, each block header's parent is the id of the header before it: adding a block appends exactly its header when it continues the chain, and stops with a failure, rather than storing it, when it does not. The height equals the number of stored headers, and the last block id is that of the last header.",
 ["inputs", "histories"], "all stores and all blocks, one at a time or merged in batches",
 "No test adds a block; a break would silently index two histories.",
 ["src/store/store.rs"],
 [("add_block_header / add_block / merge", "src/store/store.rs"), ("height / last_block_hash", "src/store/store.rs")],
 state=[dict(name="block_headers", meaning="headers of all applied blocks", where="src/store/store.rs")],
 observe=["Store::add_block", "Store::height", "Store::last_block_hash"])

prop("C21", "Only spendable mempool transactions are counted",
 "The zero-confirmation view applies the known mempool transactions in the node's listing order, each one exactly when all its inputs are unspent in the view built so far, and skips it otherwise without failing. After each refresh the mempool holds exactly the listed transactions the node could supply, each fetched at most once while it stays listed.",
 ["inputs", "histories"], "all mempool listings and contents a node may present, including conflicts and missing parents (a node lists no hash twice, and no transaction that names one input twice)",
 "No test covers the mempool; order and conflicts are unbounded.",
 ["src/last_blocks.rs", "src/store/transaction_store.rs"],
 [("Mempool::transactions / LastBlocks::augmentation", "src/last_blocks.rs"), ("can_add_transaction", "src/store/transaction_store.rs"), ("update_mempool", "src/last_blocks.rs")],
 state=[dict(name="hashes / transactions", meaning="node listing / fetched transactions", where="src/last_blocks.rs")],
 observe=["State::balance at 0 confirmations"])

prop("C22", "The confirmations parameter is honoured or refused",
 "A request's confirmations parameter is used exactly when it is a decimal number not above the configured maximum, defaults to 0 when absent, and anything else is refused with an error; it is never clamped or ignored.",
 ["inputs"], "all parameter maps and maxima",
 "No test covers request parameters.",
 ["src/create_server.rs"],
 [("parse_confirmations", "src/create_server.rs")],
 observe=["HTTP status and body"])

prop("C23", "Concurrent queries see one consistent snapshot",
 "While an update is being applied, every query sees the store and the overlays either both before or both after the update, never a mix; and no order of lock acquisitions makes queries, updates and writes wait for each other for ever.",
 ["schedules"], "all interleavings of queries with updates and writes",
 "Tests run one schedule; none exercise the server state.",
 ["src/state.rs"],
 [("apply_update lock order; readers take augmentations then store", "src/state.rs")],
 observe=["State::balance during State::update"])

prop("C24", "A crash while saving never loses the saved index",
 "If the process stops at any point while writing the index file, the next start finds either the complete previous index or the complete new one.",
 ["crash_points"], "all points at which a write may be cut short",
 "No test stops the process during a write.",
 ["src/store/store.rs"],
 [("to_file", "src/store/store.rs")],
 observe=["the index file after a kill"])

prop("C25", "Amounts are reported to the satoshi",
 "Every amount reported in bitcoin rounds back, times 1e8, to the exact number of satoshis.",
 ["inputs"], "all amounts up to 21 million bitcoin",
 "No test formats an amount.",
 ["src/create_server.rs"],
 [("format_value", "src/create_server.rs")],
 observe=["HTTP body"])

prop("C26", "Requests reach the handler their path names",
 "A request is answered by the endpoint whose method and path pattern it matches, with the path segment as the address, and an unmatched request gets 404.",
 ["inputs"], "all methods and paths",
 "No test routes a request.",
 ["src/server.rs", "src/create_server.rs"],
 [("DynamicUri / Router::route", "src/server.rs")],
 observe=["HTTP status and body"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
