"""Which functions carry which property.

own:  {module: None | [function key prefixes]}  functions whose contracts state the property (None: all of the module)
deps: modules whose contracts those proofs use; they are verified in the same run, but a failure there makes the
      proof of this property unavailable rather than refuted
feature: harness feature with the bounded check of the same statement
bounded: what of the property is covered by the bounded check only
"""
CODEC = "codecs"
SS, TS, TB, TT = "store::store", "store::transaction_store", "store::transaction_store_backend", "store::transaction_store_backend_trait"
FOLLOW = ["client", "hex", "reverse_hex", SS, TS, TB, TT, "batcher", "sequential_thread_pool", "thread_pool", "hashmap", "address", "transaction", "transaction_output", "block",
          "hashing_buffer_reader"]
SERVE = ["create_server", "server", "state", "last_blocks", "base_common::alphabet", "base58", "base58::encode", "base58::decode", "base58_check", "base58_check::checksum",
         "base58_check::encode", "base58_check::decode"] + FOLLOW
LISTEN = "hyper: reading requests from connections and sending the answers (contract assumed, run by the bounded check)"
PROPS = {
    "C01": dict(
        own={"base_common::alphabet": None, "base58": None, "base58::encode": None, "base58::decode": None},
        deps=[], feature=CODEC, bounded=[]),
    "C02": dict(
        own={"base58_check": None, "base58_check::checksum": None, "base58_check::encode": None, "base58_check::decode": None,
             "address": ["Address::from_string", "Address::to_string"]},
        deps=["base_common::alphabet", "base58", "base58::encode", "base58::decode", "address"], feature=CODEC, bounded=[]),
    "C03": dict(own={"hex": None, "reverse_hex": None}, deps=[], feature=CODEC, bounded=[]),
    "C04": dict(
        own={"base_binary": None, "base_binary::encode": None, "base_binary::decode": None,
             "base64": None, "base64::encode": None, "base64::decode": None},
        deps=["base_common::alphabet"], feature=CODEC, bounded=[]),
    "C05": dict(own={"address": ["Address::from_script", "Address::from_slice", "Address::to_vec"]}, deps=["address"], feature=CODEC, bounded=[]),
    "C06": dict(own={"hashing_buffer_reader": None}, deps=[], feature="parse", bounded=[]),
    "C07": dict(own={"transaction": None, "transaction_output": None}, deps=["hashing_buffer_reader"], feature="parse", bounded=[]),
    "C08": dict(own={"block": None}, deps=["hashing_buffer_reader", "transaction", "transaction_output"], feature="parse", bounded=[]),
    "C09": dict(
        own={TS: ["TransactionStore::spend_transaction_outputs", "TransactionStore::add_transaction", "TransactionStore::add_block", "Vec as ScriptExt",
                  "TransactionStore::take_backend", "TransactionStore::mut_backend", "TransactionStore::backend",
                  "IndexedTransactionStore::new", "IndexedTransactionStore::large", "IntermediaryTransactionStore::new"],
             TB: ["IndexedTransactionStoreBackend as TransactionStoreBackendTrait", "IndexedTransactionStoreBackend::new", "IndexedTransactionStoreBackend::large",
                  "IntermediaryTransactionStoreBackend as TransactionStoreBackendTrait", "IntermediaryTransactionStoreBackend::new"]},
        deps=[TT, "hashmap", "address", "transaction", "transaction_output", "block", "hashing_buffer_reader"], feature="store", bounded=[]),
    "C10": dict(
        own={TB: ["IndexedTransactionStoreBackend as TransactionStoreBackendTrait::spend", "IndexedTransactionStoreBackend as TransactionStoreBackendTrait::add",
                  "IndexedTransactionStoreBackend as ReadonlyTransactionStoreBackendTrait", "IndexedTransactionStoreBackend::new", "IndexedTransactionStoreBackend::large"],
             TT: None, TS: ["ReadonlyTransactionStore::"]},
        deps=["hashmap", "address"], feature="store", bounded=[]),
    "C11": dict(
        own={TS: ["TransactionStore::spend_transaction_outputs", "TransactionStore::add_transaction", "TransactionStore::add_block", "TransactionStore::can_add_transaction",
                  "IntermediaryTransactionStore::merge", "Vec as ScriptExt", "IndexedTransactionStore::from_reader", "IndexedTransactionStore::large", "IndexedTransactionStore::new"],
             TB: ["IndexedTransactionStoreBackend as TransactionStoreBackendTrait", "AugmentedTransactionStoreBackend as TransactionStoreBackendTrait",
                  "IntermediaryTransactionStoreBackend as TransactionStoreBackendTrait"]},
        deps=[TT, "hashmap", "address", "transaction", "transaction_output", "block", "hashing_buffer_reader"], feature="store", bounded=[]),
    "C12": dict(
        own={SS: ["process_blocks", "IndexedStore::from_blocks", "IntermediaryStore::", "Store::add_block", "Store::take_backend"],
             TS: ["IntermediaryTransactionStore::", "TransactionStore::add_block", "TransactionStore::add_transaction", "TransactionStore::spend_transaction_outputs"],
             TB: ["IntermediaryTransactionStoreBackend"]},
        deps=[TT, "batcher", "sequential_thread_pool", "thread_pool", "hashmap", "address", "transaction", "transaction_output", "block", "hashing_buffer_reader"],
        feature="store", bounded=["the worker threads inside ThreadPool (contract assumed, run by the bounded check)"]),
    "C13": dict(own={"batcher": None, "sequential_thread_pool": None}, deps=["thread_pool"], feature="pool",
                bounded=["ThreadPool: its worker threads and channels (contract assumed, run by the bounded check)"]),
    "C14": dict(
        own={TB: ["AugmentedTransactionStoreBackend", "ReadonlyAugmentedTransactionStoreBackend", "TransactionStoreAugmentation", "lemma_overlay_view",
                  "IndexedTransactionStoreBackend as TransactionStoreBackendTrait::has", "IndexedTransactionStoreBackend as ReadonlyTransactionStoreBackendTrait"],
             TS: ["AugmentedTransactionStore::", "ReadonlyTransactionStore::", "TransactionStore::can_add_transaction"], TT: None, SS: ["AugmentedStore::"]},
        deps=["hashmap", "address", "transaction", "transaction_output", "block", "hashing_buffer_reader"], feature="store", bounded=[]),
    "C15": dict(
        own={"last_blocks": ["LastBlocks::augmentation", "LastBlocks::last_augmentation", "LastBlocks::augmentations", "LastBlocks::pop", "LastBlocks::len", "Mempool::transactions"],
             "state": None},
        deps=["last_blocks"] + FOLLOW, feature="node", bounded=[]),
    "C16": dict(
        own={"last_blocks": ["BlockUpdater::", "LastBlocks::new", "LastBlocks::len", "LastBlocks::pop", "LastBlocks::update_blocks"],
             "client": ["Client::getblockhash", "Client::getblock"], "state": ["State::compute_update", "State::apply_update", "State::update"]},
        deps=["last_blocks", "state"] + FOLLOW, feature="node", bounded=[]),
    "C17": dict(
        own={SS: ["IndexedStore::from_file", "IndexedStore::from_reader", "IndexedStore::to_writer", "IndexedStore::to_file", "Store::add_block_header"],
             TS: ["IndexedTransactionStore::from_reader", "IndexedTransactionStore::large"],
             TB: ["IndexedTransactionStoreBackend::from_reader", "IndexedTransactionStoreBackend::to_writer", "IndexedTransactionStoreBackend::large"], "buffer_writer": None},
        deps=[TT, "hashmap", "address", "transaction_output", "block", "hashing_buffer_reader"], feature="store", bounded=[]),
    "C18": dict(
        own={"block_file_reader": ["BlockFileReader::find_longest_chain", "BlockFileReader::blocks"]},
        deps=["block_file_reader", "hashmap", "block", "hashing_buffer_reader", "transaction", "transaction_output", "thread_pool", "batcher"], feature="files", bounded=[]),
    "C19": dict(
        own={"block_file_reader": ["BlockFileReader::scan_block_file", "BlockFileReader::scan_block_files", "FileBlock as BlockTrait", "BlockFileReader::blocks"]},
        deps=["block_file_reader", "hashmap", "block", "hashing_buffer_reader", "transaction", "transaction_output", "thread_pool", "batcher"], feature="files",
        bounded=["the worker threads inside ThreadPool (contract assumed, run by the bounded check)"]),
    "C20": dict(
        own={SS: ["Store::", "IntermediaryStore::", "process_blocks", "IndexedStore::from_blocks"]},
        deps=[TS, TB, TT, "batcher", "sequential_thread_pool", "thread_pool", "hashmap", "address", "transaction", "transaction_output", "block", "hashing_buffer_reader"],
        feature="store", bounded=[]),
    "C21": dict(
        own={"last_blocks": ["Mempool::", "LastBlocks::augmentation", "LastBlocks::last_augmentation", "LastBlocks::update_mempool"],
             "client": ["Client::getrawmempool", "Client::getrawtransaction"],
             "state": ["State::compute_update", "State::apply_update", "State::update", "State::augmented_store"],
             TS: ["TransactionStore::can_add_transaction"]},
        deps=["last_blocks", "state"] + FOLLOW, feature="node", bounded=[]),
    "C22": dict(
        own={"create_server": ["parse_confirmations", "get_balance", "get_utxos", "create_server"], "server": ["Router::route"], "state": ["State::confirmations"]},
        deps=SERVE, feature="api", bounded=[LISTEN]),
    "C23": dict(
        own={"snapshots": None},
        deps=["state", "last_blocks"] + FOLLOW, feature="snap",
        bounded=["tokio's locks and its scheduler (contract of the locks assumed, run by the bounded check)"]),
    "C24": dict(
        own={SS: ["IndexedStore::to_file", "IndexedStore::to_writer", "IndexedStore::from_file"], "state": ["State::write"]},
        deps=["last_blocks", "buffer_writer"] + FOLLOW, feature="crash",
        bounded=["what the operating system leaves of a file when a process is stopped (contracts of fs::write and fs::rename assumed, run by the bounded check)"]),
    "C25": dict(
        own={"create_server": ["format_value", "format_utxo", "get_balance", "get_utxos", "respond"],
             "state": ["State::balance", "State::balance_array", "State::transaction_outputs_array", "State::iterate_transaction_outputs"]},
        deps=SERVE, feature="api", bounded=[LISTEN, "serde_json's printing of a float (contract assumed, run by the bounded check)"]),
    "C26": dict(
        own={"server": ["DynamicUri::", "escape_regex", "Route::", "Router::", "Server::"], "create_server": ["create_server", "parse_address", "respond", "lemma_service", "lemma_sent", "lemma_starts"]},
        deps=SERVE, feature="api", bounded=[LISTEN, "the regex crate (the meaning of the four regular expressions of DynamicUri assumed, run by the bounded check)"]),
}

NOT_APPLICABLE = {}
NOTES = {}
