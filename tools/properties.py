I = ["inputs"]
H = ["inputs", "histories"]
WH_ACC = "The accounts handed to an instruction are chosen by the caller; tests only pass the genuine ones, an attacker passes look-alikes to any of 33 entry points."
p("A01", "Payment program reads and writes state only at the derived address",
  "An instruction of the payment program succeeds only if every account whose data it decodes or changes sits at the address derived from that account kind's seed, plus the owner key and the index named by the instruction where the kind is per-owner or indexed. A transaction that supplies any other account for such a position fails.",
  I, "all account lists, instruction arguments and account contents, for every instruction", WH_ACC,
  ["elusiv/src/instruction.rs", "elusiv-derive", "elusiv-types/src/accounts.rs"],
  [("account attributes on the instruction enum", "elusiv/src/instruction.rs"), ("derived-address verification", "elusiv-types/src/accounts.rs")])
p("A02", "Warden network program reads and writes state only at the derived address",
  "An instruction of the warden network program succeeds only if every account whose data it decodes or changes sits at the address derived from that account kind's seed, plus the owner key or index named by the instruction. A transaction that supplies any other account for such a position fails.",
  I, "all account lists, arguments and account contents, for every instruction", WH_ACC,
  ["elusiv-warden-network/src/instruction.rs", "elusiv-types/src/accounts.rs"],
  [("account attributes on the instruction enum", "elusiv-warden-network/src/instruction.rs")])
p("A03", "Whoever pays, registers or decides has signed the transaction",
  "Every instruction that spends a user's or relayer's funds, opens accounts at somebody's expense, changes a verifying key, or records a decision for a warden, operator, attester or proposer succeeds only if that account signed the transaction.",
  I, "all account lists with arbitrary signer flags, for every instruction", "Tests sign with the right keys; a missing signature requirement is invisible to them.",
  ["elusiv/src/instruction.rs", "elusiv-warden-network/src/instruction.rs"],
  [("signer flags of the instruction account lists", "elusiv/src/instruction.rs")])

ACC = "elusiv/src/processor/"
WH_FLOW = "Amounts, fees, prices and balances are runtime values; the tests sample a handful of them and mostly stop at helper functions, none covers every branch of the settlement."
p("F01", "A deposit moves exactly the amount, fees and subvention it names",
  "For every successful deposit the pool gains exactly the deposited amount and the commitment hashing fee, the fee collector gains exactly the network fee and pays exactly the subvention, the relayer is made whole for the hashing fee, and the sender pays the rest; native deposits move no tokens and token deposits move lamports only for hashing fee and rent. Fees of token deposits are the lamports fees converted at the oracle price.",
  I, "all amounts, tokens, batching rates, fee tables, prices and starting balances", WH_FLOW, [ACC + "commitment.rs", "elusiv/src/state/fee.rs", "elusiv/src/token.rs"],
  [("deposit settlement", ACC + "commitment.rs"), ("fee formulas", "elusiv/src/state/fee.rs")])
p("F02", "Hashing work is repaid with exactly the prepaid compensation",
  "Finishing a commitment hash repays the base hashing fee to the fee payer who opened that computation, together with the rent of the closed computation account, and each tree-hashing step pays the computing party exactly one step's compensation. Nothing else leaves the pool in these instructions.",
  I, "all fee tables, balances and computation states", WH_FLOW, [ACC + "commitment.rs", "elusiv/src/state/fee.rs"], [("compensation of computing parties", ACC + "commitment.rs")])
p("F03", "Starting a withdrawal charges and records exactly the specified fees",
  "When a relayer funds a withdrawal, the pool gains the hashing fee and reserved token-account rent from the relayer and the subvention from the fee collector, and the fee the user authorised covers hashing, verification and network fee less subvention. Every fee recorded for the later payout equals the charged one, converted at the oracle price for tokens.",
  I, "all requests, amounts, tokens, fee tables and prices", WH_FLOW, [ACC + "proof.rs", "elusiv/src/state/fee.rs", "elusiv/src/state/proof.rs"],
  [("fee transfer of a verification", ACC + "proof.rs")])
p("F04", "A native payout pays out exactly the proven amount and recorded fees",
  "After an accepted proof the native pool pays the amount less the optional fee to the recipient (or to the relayer that forwards it), the optional fee to its collector, the recorded compensation to the relayer and the recorded network fee to the collector, and nothing else. After a rejected proof only the collector is refunded with the recorded subvention, hashing fee and rent.",
  I, "all requests, recorded fees, outcomes and balances", WH_FLOW, [ACC + "proof.rs"], [("native settlement of a verification", ACC + "proof.rs")])
p("F05", "A token payout pays out exactly the proven amount and recorded fees",
  "After an accepted proof the pool's token account pays the amount less optional fee and account rent to the recipient, the optional fee to its collector and the recorded fees to relayer and collector; rent for the recipient's token account is returned in lamports to the relayer who funded it. After a rejected proof only the collector is refunded, and only with what was recorded.",
  I, "all requests, recorded fees, outcomes, token accounts and balances", WH_FLOW, [ACC + "proof.rs"], [("token settlement of a verification", ACC + "proof.rs")])
p("F06", "No other instruction moves funds",
  "Apart from deposit, hashing compensation, fee transfer and payout, no instruction of either program changes a lamports balance except for the rent of accounts it opens, paid by the signer, and the balance of accounts it closes, paid to the named beneficiary. None of them moves tokens.",
  I, "all instructions of both programs, all account lists and contents", "The absence of a flow cannot be sampled.", [ACC, "elusiv-warden-network/src/processor"],
  [("account opening and closing", "elusiv-utils/src/lib.rs"), ("all instruction processors", ACC)])
p("F07", "Every debit through another program is authorised by its owner",
  "Whenever either program asks the system, token or associated-token program to debit an account, the authority that is debited either signed the transaction or is an address derived from the program for which the program itself signs. The program never signs for one account while debiting another.",
  I, "all cross-program calls on all successful executions", "Tests run the programs with cooperative accounts.", ["elusiv-utils/src/lib.rs", ACC + "utils.rs"],
  [("transfer helpers", ACC + "utils.rs")])
p("F08", "Pool and fee collector stay rent exempt",
  "No payment leaves the pool or the fee collector with less lamports than the rent-exempt minimum of its size, so that neither account can be purged with the users' funds. Only the payment instructions debit these accounts.",
  I, "all starting balances and amounts", "Tests start with ample balances.", [ACC + "utils.rs"], [("checked lamports transfer out of derived accounts", ACC + "utils.rs")])
p("F09", "Tokens move only between genuine token accounts of the request's mint",
  "Every token transfer is issued to the genuine token program between accounts the token program owns, the program's side being the associated token account of the pool or fee collector for the mint of the request's token. The relayer's refund account holds that same mint.",
  I, "all account lists and token ids", WH_ACC, [ACC + "utils.rs", ACC + "commitment.rs", ACC + "proof.rs"], [("token account verification", ACC + "utils.rs")])
p("F10", "Fees are priced by the listed oracles only",
  "Whenever a token fee is priced, both prices are read from the oracle accounts the token table lists for the native token and the request's token. No caller-chosen account can act as price feed.",
  I, "all account lists and token ids", WH_ACC, ["elusiv/src/token.rs", ACC + "proof.rs", ACC + "commitment.rs"], [("oracle accounts", "elusiv/src/token.rs")])
p("F11", "A relayed payment reaches its recipient in the same transaction",
  "When a payout is handed to the relayer for forwarding, the same transaction ends with a transfer of exactly that amount from the relayer to the recipient, verified in program, data and accounts. One such transfer never serves two payouts.",
  I, "all transactions and instruction layouts", "Tests build the honest transaction.", [ACC + "proof.rs"], [("enforcement of the transfer that follows a relayed payout", ACC + "proof.rs")])

CM = ACC + "commitment.rs"
ST_C = "elusiv/src/commitment.rs"
p("C01", "A deposit is only accepted within the protocol's limits",
  "A deposit succeeds only with the governor's current fee version and batching rate, a listed token, an amount within that token's limits, commitments that are canonical field elements, a base commitment other than the empty one, and a recent index inside the window of remembered commitments.",
  I, "all requests and governor, storage and token-table states", "Limits are compared with runtime values on every branch; unit tests probe single values of some of them.", [CM, "elusiv/src/token.rs"], [("deposit guards", CM)])
p("C02", "A deposit records exactly what the depositor asked to be hashed",
  "The computation opened by a successful deposit records the request's base commitment, amount, token and recent index as hash input and its fee version, batching rate, metadata and paying relayer. Apart from the list of remembered values nothing else changes.",
  I, "all requests, metadata and account states", "A dropped or swapped field yields a plausible record no sample test distinguishes.", [CM], [("request of a base commitment computation", CM)])
p("C03", "A base commitment hash is exactly one complete permutation",
  "Each step of a base commitment hash applies the next rounds to the stored state, all steps together apply every round once and in order, and the result can be finalised only after the last one. No further step is possible.",
  H, "all step counters, all interleavings of steps by any callers", "Tests run the steps in order on one input; that no step can be skipped, repeated or exceeded is a statement about every history.", [CM, "elusiv/src/commitment/poseidon_hash.rs"], [("stepwise base hash", CM)])
p("C04", "Each finished deposit enters the commitment queue exactly once",
  "Finalising a base commitment hash appends one queue entry with that computation's own result, fee version and batching rate, and its metadata, and closes the computation, so it cannot be finalised again. Only the relayer who opened it is accepted as receiver of its refund.",
  H, "all queue states and computation histories", "Ring positions and closing are checked for a few states only.", [CM, "elusiv/src/state/queue.rs"], [("finalisation of a base commitment hash", CM)])
p("C05", "A hashing batch takes exactly the next queued commitments or none",
  "Starting a tree-hashing batch takes the next two-to-the-rate commitments and metadata entries of the queues, in order and of one fee version, the rate being the highest minimum any of them paid for. A batch can start only while none is active and the tree has room. An attempt whose failure is ignored changes nothing.",
  H, "all batching rates, queue positions, tree positions and histories", "A lost or duplicated commitment needs a particular queue position, rate or failure between the steps; this is where a defect was found and fixed.", [CM, "elusiv/src/state/commitment.rs", "elusiv/src/state/queue.rs"], [("start of a batch", CM)])
p("C06", "Tree hashing computes every node of a batch once from its children",
  "The steps of a batch compute each node of the batch subtree and each ancestor up to the root exactly once from its two children, in the order the leaf position dictates, with all rounds of the hash. Counters advance with the work, and no step can be skipped, repeated or exceeded.",
  H, "all batching rates, leaf positions and all steps of a batch", "Tests hash a few batches at position zero with the native reference; orderings at other positions are not covered.", [CM, ST_C, "elusiv/src/state/commitment.rs"], [("stepwise hashing of the commitment tree", CM)])
p("C07", "A finished batch is inserted at its own place in the tree",
  "Finalising a batch writes exactly the computed nodes at the levels and positions its leaf position defines, advances the leaf pointer by the batch size and remembers the new root; it can only happen once and only when all hashes are done. No other node of the tree changes.",
  H, "all batching rates, leaf positions and tree states", "Node indices depend on the leaf position at each of twenty levels and on the division into accounts.", [CM, "elusiv/src/state/storage.rs"], [("insertion into the commitment tree", "elusiv/src/state/storage.rs")])
p("C08", "Only the hashing instructions change tree, queues and remembered values",
  "Tree nodes, leaf pointer, root history, both queues, the active batch, base hash computations and remembered values are changed only by the instructions whose task that is. No other instruction stores into them.",
  I, "all instructions and arguments", "The absence of a write cannot be sampled.", [ACC], [("instruction processors", ACC)])
p("C09", "A commitment that is still remembered is not accepted twice",
  "A deposit or withdrawal succeeds only if its commitment is none of the remembered last 128 values, and afterwards it is remembered in place of the oldest. The search compares every byte of every remembered entry.",
  H, "all values, buffer fill levels and histories", "Depends on fill level, wrap-around and every byte of the values.", [CM, ACC + "proof.rs", "elusiv/src/buffer.rs", "elusiv/src/bytes.rs"], [("ring buffer of remembered values", "elusiv/src/buffer.rs")])

p("C10", "A batch is hashed with the siblings of its own leaf",
  "Before a batch is hashed, the node beside the path of the next free leaf is stored for each of the 20 levels. Reading a node of the tree yields its stored value, from its own place, if some used leaf lies below it, and otherwise the value of an empty subtree of its height.",
  I, "all positions, levels and fill states of the tree", "A node that is wrong for one level, parity or fill state shows up only in trees the tests do not build, and then every later root is wrong.", [CM, ST_C.replace("commitment", "storage"), "elusiv/src/state/storage.rs"][-2:], [("opening of the next leaf", "elusiv/src/state/storage.rs")])

p("C11", "Every round of the hash is the one of the specified permutation",
  "For every state, each of the 65 rounds of the hash adds that round's constants, raises every element (in the 57 middle rounds only the first) to the fifth power and mixes with the matrix of the specified permutation for two inputs. Hashing starts with zero and the two values in order, and the hash is the first element at the end.",
  I, "all states (all field elements), all rounds", "Vectors test a handful of inputs; a round that treats one value specially, or a path that loses a carry, passes them.", ["elusiv/src/commitment/poseidon_hash.rs", "elusiv/src/commitment/poseidon_constants.rs"], [("rounds of the hash", "elusiv/src/commitment/poseidon_hash.rs"), ("constants of the hash", "elusiv/src/commitment/poseidon_constants.rs")],
  technique="value numbering by polynomial normal form over compiler MIR")

p("C12", "Conversions between bytes and field elements keep the number",
  "Converting 32 bytes, limbs, integers and field elements into one another keeps the number they stand for, for every value: byte order, limb order and internal form are those the conversion names. A number is accepted as an element exactly if it is below the order of the field.",
  I, "all 32-byte values, integers and field elements", "Tests convert a few numbers; a mistake that shows only in some limb or for some value passes.", ["elusiv/src/fields.rs", "elusiv/src/types.rs"], [("conversions of field elements", "elusiv/src/fields.rs"), ("conversion into limbs", "elusiv/src/types.rs")],
  technique="byte-level value numbering over compiler MIR")

p("T01", "A withdrawal starts only if it spends unspent notes of known trees",
  "A withdrawal starts only if each named root is one its tree has or remembers, each nullifier is unspent and occurs once per tree, the trees are distinct, the new commitment is not the empty one, the recent index is inside the window, and the verifying key is set up. Amount plus fee must not wrap and cover the optional fee; any other number of inputs or roots is refused.",
  I, "all requests (inputs, roots, amounts), tree indices and account states", "Any one of a dozen guards can be lost on one branch or for one shape of request without a sample test noticing; the wrap of the amount was found and fixed here.", [ACC + "proof.rs", "elusiv/src/state/nullifier.rs"], [("guards of a new withdrawal", ACC + "proof.rs")])
p("T02", "The proof is verified against exactly the started request",
  "A started withdrawal records exactly the given request, verifying key, trees and relayer. The public inputs to be verified are the request's nullifiers, roots, total amount, new commitment, recent index, fee version, token and data hash in circuit order, absent ones zero, and the preparation schedule is theirs.",
  I, "all requests of every number of inputs and roots", "A signal that is swapped or left out for one shape of request makes the proof speak about something else, and unit tests check one shape.", [ACC + "proof.rs", "elusiv/src/types.rs", "elusiv/src/state/proof.rs"], [("public signals of a withdrawal", "elusiv/src/types.rs"), ("recording of a withdrawal", ACC + "proof.rs")])
p("T03", "A withdrawal goes through its stages in one order and never back",
  "Every withdrawal passes fee payment, proof, verification, finalisation, insertion of its nullifiers and payout in exactly this order, each by its own instruction, and after payout nothing more is done with it. Every part of its record is changed only by the instruction in charge of that part.",
  H, "all instructions in all states of a withdrawal, any interleaving by any callers", "That no instruction of the whole program skips or repeats a stage quantifies over all histories.", [ACC + "proof.rs", "elusiv/src/state/proof.rs"], [("stages of a withdrawal", "elusiv/src/state/proof.rs")])
p("T04", "The verdict on a proof comes from one complete run of the verification",
  "The steps of a verification run every round of input preparation, pairing and final exponentiation once and in order on the stored proof, prepared inputs and recorded key, each round continuing with the values of the one before. The verdict is accepting only if the last round's result equals the key's value, it is set once, and no step can be skipped, repeated or exceeded.",
  H, "all step counters and rounds of all three phases, any interleaving of steps", "A complete verification takes hundreds of transactions, which no test of the repository runs; a skipped or repeated round shows only for particular counters.", [ACC + "proof.rs", "elusiv/src/proof/verifier.rs", "elusiv/src/proof/mod.rs"], [("stepwise verification", "elusiv/src/proof/verifier.rs")])
p("T05", "An accepted withdrawal spends all its notes before it is paid",
  "Each insertion step adds exactly the next nullifier of the withdrawal to the spent set of the tree it belongs to, and a failing insertion fails the step. The withdrawal becomes payable only after its last nullifier has been inserted and nothing in the spent set waits for its place.",
  H, "all shapes of requests, all counts of inserted nullifiers, all states of the spent set", "A nullifier that is skipped for one number of inputs allows a double spend and passes every test of other shapes.", [ACC + "proof.rs", "elusiv/src/state/nullifier.rs"], [("nullifier insertion", ACC + "proof.rs")])
p("T06", "Recipient, metadata, optional fee and memo are those the proof commits to",
  "A withdrawal is finalised only if recipient, identifier, reference, encrypted owner, kind of recipient account, metadata and optional fee hash to the data hash of its proven public inputs, together with the memo when one is used. The memo is then read from the right instruction of the transaction, and the payout goes to that same recipient.",
  I, "all finalisation data, account lists and transactions", "A field that is left out of the hash can be replaced by whoever sends the transaction, yet honest tests pass.", [ACC + "proof.rs", "elusiv/src/processor/proof.rs"], [("binding of the finalisation data", ACC + "proof.rs")])
p("T07", "Finalising a withdrawal commits the transaction to its payout",
  "A withdrawal is finalised only once a verdict exists. An accepted one is finalised only in a transaction in which nothing but its insertions lies between it and its payout, and with the announced amount, token and tree position its user signed for; a rejected one goes straight to settlement and its commitment is forgotten.",
  I, "all verdicts, transactions and tree and queue positions", "Depends on other instructions of the transaction and on queue positions tests do not construct.", [ACC + "proof.rs"], [("finalisation", ACC + "proof.rs")])
p("T08", "A payout queues the proven new commitment exactly once and ends the withdrawal",
  "Paying out an accepted withdrawal appends exactly one entry to the commitment queue, the proof's new commitment with its fee version and the batching rate paid for, and the proof's metadata; settling a rejected one appends nothing. Only the recorded relayer and recipient are accepted, and afterwards the withdrawal is closed.",
  I, "all requests, outcomes, queue states and account lists", "A lost or doubled commitment destroys or creates money and only shows when it is spent later.", [ACC + "proof.rs", "elusiv/src/state/queue.rs"], [("settlement of a verification", ACC + "proof.rs")])
p("T09", "The same notes are withdrawn once at a time unless the relayer says otherwise",
  "Starting a withdrawal creates a mark at the address derived from exactly its nullifiers, which fails if that mark exists; a relayer who explicitly skips this must name that very mark, existing already. The mark is checked again at payout, and a relayer has a bounded number of withdrawals, each with a fresh record.",
  I, "all shapes of requests, nullifiers and account lists", "A nullifier left out of the derivation for one shape of request goes unnoticed.", [ACC + "proof.rs", "elusiv/src/types.rs", "elusiv/src/state/proof.rs"], [("nullifier duplicate account", "elusiv/src/types.rs")])
p("T10", "The proof to be verified is the one the relayer submitted, made of curve points",
  "A proof is accepted only from the signing relayer who started the withdrawal and paid its fees, and before any verdict; its three points are stored exactly as submitted. Only points on the curve are accepted.",
  I, "all submitted proofs and account states", "Missing checks on group elements do not show with honest proofs.", [ACC + "proof.rs", "elusiv/src/types.rs"], [("submission of the proof", ACC + "proof.rs")])
p("T16", "The preparation of public inputs is scheduled completely",
  "For every list of public inputs, the steps a withdrawal schedules for their preparation add up to exactly all rounds of the preparation: every byte of every input and every final addition. No round is left out or run twice because of where a step ends.",
  I, "all public inputs of all circuits", "Where a step ends depends on how many bytes of the inputs are zero; a round lost at one boundary would verify a proof for other inputs, and sample inputs rarely meet it.", ["elusiv/src/proof/verifier.rs", "elusiv/src/state/proof.rs"], [("division of input preparation into steps", "elusiv/src/proof/verifier.rs")],
  technique="affine-relation analysis (Karr) over compiler MIR")

p("N01", "The spent set loses, doubles or misplaces no nullifier",
  "A nullifier enters the first bucket of its tree's spent set that may hold it, only if neither that bucket nor the waiting list has it, and the counter grows by one up to the number of leaves. A value given back by a full bucket waits for the next one, and insertions and moves together keep every nullifier exactly once. The check at the start of a withdrawal looks in the same places.",
  H, "all counts of waiting nullifiers, bucket fill levels, values and targets", "The overflow between buckets starts at 65,536 nullifiers, which tests reach only through direct calls of a helper; a waiting nullifier that is lost can be spent twice.", ["elusiv/src/state/nullifier.rs", ACC + "proof.rs"], [("spent nullifiers over buckets", "elusiv/src/state/nullifier.rs")])
p("N02", "A bucket of the spent set is a sorted map that drops only its largest",
  "A bucket stores each key once, in order, and a search finds every stored key and the place of every other. An insertion adds exactly the new entry while there is room; a full bucket gives back exactly its largest entry and keeps all others, the new one included. Queries and refused insertions change nothing, and an emptied bucket behaves like a new one.",
  H, "all sequences of insertions, fill levels up to 65,536, and positions of the new key", "A search takes different short cuts at every fill level and position; three defects (a lost key next to the largest, a wrong value, stale short cuts after a reset) passed the tests and were found and fixed here.", ["elusiv/src/map.rs"], [("sorted map of a bucket", "elusiv/src/map.rs")])
p("M01", "A tree is closed only when full, and nothing of it leaks into the next",
  "The active tree is closed only when it is full or the next batch of the queue does not fit, while no commitment is being hashed. Its root is kept with its spent nullifiers, and the next tree starts empty, without its predecessor's roots and prepared hash. The position, roots and spent set of a tree are changed by no other instruction than those in charge.",
  H, "all states of tree, queue and hashing, all instructions of the program", "The change of trees happens once per million commitments; hashing that survived it was a defect found and fixed here.", [ACC + "accounts.rs", "elusiv/src/state/storage.rs"], [("closing the active tree", ACC + "accounts.rs")])
p("M02", "A data account backs one slot of one record, of exact size, forever",
  "An account becomes part of a record (tree nodes, spent nullifiers, metadata, verifying key) only if the slot named is empty and the account belongs to the program, has exactly the required size and rent, and was never attached before; it is then marked as used. A bucket of nullifiers is emptied when attached. No other instruction changes a slot, except a key's switch to its next version.",
  H, "all account lists, slots and states, all instructions of the program", "Attaching one account twice would make two records share memory; tests attach fresh accounts.", [ACC + "accounts.rs", "shared/elusiv-types/src/accounts.rs"], [("attaching child accounts", ACC + "accounts.rs")])
p("V01", "A verifying key is changed by its authority only, and never once frozen",
  "Creating a next version, uploading data, switching, freezing and changing the authority succeed only on the key named, which is not frozen, and for the signing authority if the key has one; each changes only what it is for. A key's record is created at its own address, with the authority and number of inputs given, and is changed by no other instruction.",
  H, "all callers, keys and states, all instructions of the program", "Whoever can change a verifying key can forge withdrawals; tests cover the authority's calls.", [ACC + "vkey.rs", "elusiv/src/state/vkey.rs"], [("modification of verifying keys", ACC + "vkey.rs")])
p("V02", "Uploads write the unused version of a key, and a switch swaps it in whole",
  "A packet is written at its own position inside the version being prepared, never beyond its end and never into the version in use. A switch makes the prepared version the used one, frees its place, counts the version up without wrapping, and closes the old version's account, named exactly, in favour of the signer. No other instruction changes a key's bytes.",
  H, "all packets, positions, key sizes and states", "Byte ranges at the end of a key of any size are arithmetic that samples miss.", [ACC + "vkey.rs"], [("upload and switch of verifying keys", ACC + "vkey.rs")])
p("P01", "The payment program creates each record once, at its address, in full",
  "Every account the payment program creates is a record its instruction is for, in the account designated for it, at the address its kind, owner and index derive. It is created for the program, with exactly its size, not more than one instruction can create, and the rent for it paid by the designated payer, and starts with its address bump and version zero. An instruction that opens records succeeds only if it creates all of them.",
  I, "all account lists, arguments and balances, every instruction", "Records opened with a wrong size, seed or owner only fail instructions that come much later; unit tests skip creation altogether.", [ACC + "accounts.rs", "shared/elusiv-utils/src/lib.rs"], [("creation of program accounts", "shared/elusiv-utils/src/lib.rs")])
p("P02", "The warden network program creates each record once, at its address, in full",
  "Every account the warden network program creates is a record its instruction is for, in the account designated for it, at the address its kind, owner and index derive. It is created for the program, with exactly its size, not more than one instruction can create, and the rent for it paid by the designated payer, and starts with its address bump and version zero. An instruction that opens records succeeds only if it creates all of them.",
  I, "all account lists, arguments and balances, every instruction", "Records opened with a wrong size, seed or owner only fail instructions that come much later; unit tests skip creation altogether.", ["elusiv-warden-network/src/processor/basic_warden.rs", "shared/elusiv-utils/src/lib.rs"], [("creation of program accounts", "shared/elusiv-utils/src/lib.rs")])
p("P03", "A record is recognised by the address bump its creation stored",
  "Where an instruction of either program checks that an account is the record of an owner or index by means of stored data, it takes the address bump from the first byte of that very account. Creation writes it there, and no later instruction rewrites it, so a record created once is accepted for as long as it exists and cannot be confused with a record of another index.",
  I, "all accounts, owners, indices and stored contents, every instruction of both programs", "A bump read from another place would lock existing records, and their funds, out; unit tests pass records to the handlers directly, behind the check.", ["shared/elusiv-types/src/accounts.rs", "elusiv/src/instruction.rs", "elusiv-warden-network/src/instruction.rs"], [("address checks", "shared/elusiv-types/src/accounts.rs")])
p("G01", "A fee version is set once, is bounded, and is never changed afterwards",
  "Fees are set only for the governor's current version, together with the creation of that version's record, so once; record and governor take over exactly the fees given. They are accepted only if they count the verification's transactions right and no subvention exceeds the fee it subsidises, for any batch size. No other instruction changes fees, version or batching rate.",
  H, "all fee tables and governor states, all instructions of the program", "The bound depends on the batch size; that the largest one was left out is a defect found and fixed here.", [ACC + "accounts.rs", "elusiv/src/state/fee.rs", "elusiv/src/state/governor.rs"], [("fee versions", "elusiv/src/state/fee.rs")])
WN = "elusiv-warden-network/src/"
p("W01", "A warden registers itself, once, under the next id and as declared",
  "Registration succeeds only with the signature of the key declared, for the next free id, while the member list has room; the id counter never wraps and the list gains exactly this entry. The record keeps the declared data and starts inactive, unconfirmed, unattested and without the right to attest, stamped with the current time. No other instruction changes the list (but for an attested region) or the counter.",
  I, "all signers, configurations, ids and network states, every instruction", "Tests register one well-formed warden; a wrong slot, field or right shows only for other histories.", [WN + "processor/basic_warden.rs", WN + "network.rs"], [("registration", WN + "processor/basic_warden.rs")])
p("W02", "A warden's record changes only in the fields of the instruction and by its party",
  "After registration, activity state and lookup table of a warden change only with the warden's own signature, its operator and confirmation only with the operator's, its right to attest only with the authority's, attested data only with an attester's. The activation time changes exactly when the activity state does, to the current time. Nothing else in the program changes a record.",
  I, "all callers, records and arguments, every instruction", "Needs every store of every instruction compared field by field with the previous record; tests look at the field they set.", [WN + "processor/basic_warden.rs", WN + "processor/operator.rs"], [("updates of warden records", WN + "processor/basic_warden.rs")])
p("W03", "Operators register as themselves and confirm only wardens that name them",
  "An operator's record is created with the operator's signature and stores its key and exactly the data it gave. A warden's operation is confirmed only with the signature of the operator it names, or of the first operator if it names none, who is then recorded. Operator records are never changed afterwards.",
  I, "all operators, wardens and arguments", "The stored key is read by no unit test; confirmation depends on the record's history.", [WN + "processor/operator.rs", WN + "operator.rs"], [("operators", WN + "processor/operator.rs")])
p("W04", "Activity is counted once, for the fee payer whose work was completed",
  "Tracking counts one more activity, in total and for the current day of the current year, in the record of a warden only if the directly preceding instruction of the transaction is one of the payment program's that completes a fee payer's work, and the warden is that fee payer. Counters never wrap. Otherwise tracking fails, or changes nothing if asked not to fail.",
  I, "all transactions, positions, days and records", "The position credited lives in one program and the account order in the other; tests build the accounts from the same table they check.", [WN + "processor/basic_warden.rs", WN + "warden.rs", "elusiv/src/instruction.rs"], [("tracking of activity", WN + "processor/basic_warden.rs"), ("account order of tracked instructions", "elusiv/src/instruction.rs")])
p("W05", "The analysis network is founded seat by seat, on complete quotes of all",
  "A warden applies once with its own signature and takes the next seat with its first half quote and the exchange key in it; it completes exactly its own seat's quote; both only while some quote is incomplete. A seat is confirmed once, with its own exchange key, after all quotes are complete, with the hash of all quotes in seat order. No other instruction changes the network's record.",
  H, "all histories of applications, completions and confirmations, ids and quotes", "Seats and ids coincide in small tests; only other orders of registration and application tell them apart.", [WN + "processor/apa_warden.rs", WN + "network.rs"], [("founding of the analysis network", WN + "network.rs")])
p("W06", "Proposals are numbered without gaps and name who made them, when and as whom",
  "A proposal takes the next number, which never wraps, and stores what was proposed with the signer as proponent and the current time. A token it names exists, and a proponent claiming a token's freezing authority names a token and is the freezing authority recorded in that token's mint. Stored proposals are never changed.",
  I, "all proposals, mints, callers and counters", "Needs malformed and forged mints and roles; tests propose in the default role.", [WN + "processor/apa.rs", WN + "apa.rs"], [("proposals", WN + "processor/apa.rs")])
p("W07", "Only attesters made so by the authority attest, and verdict and data are stored",
  "A warden gets the right to attest only with the authority's signature, and loses it likewise. An attestation is signed by a warden with that right; it stores the attested location data and network number in the attested warden's record and its entry of the member list. The verdict stored is whether all declared location data equal the attested.",
  I, "all callers, records, member indices and attested values", "No test attests; the right can also be gained through other instructions that store the record.", [WN + "processor/basic_warden.rs", WN + "network.rs"], [("attestation", WN + "processor/basic_warden.rs")])
p("D01", "An input is one instruction, run by its own handler on the accounts given",
  "Both programs accept an input only by decoding it as one instruction and running exactly that instruction's handler, once, with the accounts given and the instruction's own arguments in order. The handler's outcome is the program's outcome, and every instruction has its handler.",
  I, "all inputs and account lists, both programs", "No test sends every instruction through the entry point, and arguments of equal types can be exchanged unnoticed.", ["elusiv/src/entrypoint.rs", "elusiv/src/instruction.rs", WN + "entrypoint.rs", WN + "instruction.rs", "shared/elusiv-derive/src/elusiv_instruction.rs"], [("dispatch", "elusiv/src/instruction.rs")])
p("D02", "The mainnet builds behave as the builds analysed, and close no account at will",
  "Compiled for mainnet, both programs have the same instructions in the same order, except that none closes program accounts at the key holder's will. Every handler succeeds under the same conditions with the same effects and results, up to the program's own ids and the addresses derived from them.",
  I, "all instructions of both programs in both configurations", "The mainnet configuration is never tested.", ["elusiv/src/instruction.rs", ACC + "accounts.rs", WN + "instruction.rs", WN + "processor/accounts.rs"], [("mainnet configuration", "elusiv/src/instruction.rs")])
p("T11", "The proof check multiplies the right Miller loops, for every proof",
  "The value that a withdrawal's proof check computes from proof, prepared inputs and verifying key is the product of the three Miller loops of the optimal ate pairing, together with the key's constant. This holds whichever of the proof's points are the neutral element, and for every way of dividing the rounds into instructions.",
  I, "all proofs, prepared inputs and verifying keys, all divisions into instructions", "One wrong line in 2,020 rounds may only matter for one digit of the loop or a point at infinity; the repository's tests that cover it do not run.", ["elusiv/src/proof/verifier.rs", "elusiv/src/types.rs", "elusiv/src/state/proof.rs"], [("pairing rounds", "elusiv/src/proof/verifier.rs")])
p("T12", "The final exponentiation raises to the pairing's exponent",
  "The value compared with the expected one is the Miller loop's value to the power of a fixed multiple, prime to the group order, of the exponent the pairing is defined with. A value without inverse is rejected.",
  I, "all values, all divisions into instructions", "Tests compare one or two sampled values with the reference implementation; the reduced loops of these rounds are not run by any test.", ["elusiv/src/proof/verifier.rs"], [("rounds of the final exponentiation", "elusiv/src/proof/verifier.rs")])
p("T13", "Public inputs enter the proof check each with its own key points, once",
  "The prepared inputs are the key's constant point plus, for each public input, the sum of the key's precomputed points for that input's bytes. This holds for every division of the rounds into instructions and whichever inputs are zero.",
  I, "all public inputs, both sizes of withdrawal, all divisions into instructions", "A window added twice or left out at the border of two instructions shows only for that division; tests run the rounds in one piece.", ["elusiv/src/proof/verifier.rs", ACC + "proof.rs"], [("preparation of the public inputs", "elusiv/src/proof/verifier.rs")])
p("T14", "Each part of a verifying key is read from its own place",
  "A verifying key is accepted only with exactly the length its number of inputs requires. Every constant, precomputed point and line coefficient is read from the byte range the key's layout gives it, and no two parts share bytes.",
  I, "all keys, inputs, windows and coefficients", "Positions grow to two million bytes across accounts; an offset off by one coefficient gives a plausible but wrong curve point.", ["elusiv/src/proof/vkey.rs", "elusiv/src/state/vkey.rs"], [("layout of verifying keys", "elusiv/src/proof/vkey.rs")])
p("T15", "Values kept for the next instruction come back unchanged, each in its place",
  "What a computation stores in the withdrawal's record between two instructions is what the next instruction reads at the same place. No value is written over another, none is lost when the record is saved, and unchanged places keep their bytes.",
  I, "all frames, places, fill levels and stored values", "Tests run computations within one process, where values come from memory and never from the stored bytes.", ["elusiv/src/state/proof.rs", "elusiv/src/types.rs"], [("memory between instructions", "elusiv/src/state/proof.rs")])
p("S02", "A record's fields fill it without overlap, and access touches one field only",
  "Reading an account as a record succeeds exactly for the record's size, and the places of the record's fields adjoin, in order, and fill it. Each field's getter and setter, for every index of a field with many entries, reads or writes one value of the field's type in exactly that field's bytes and nothing else; so do the containers that load their entries one by one.",
  I, "all records of both programs, all field values and indices", "The accessors are generated code for 29 records; tests use a few fields of sample records, at few indices.", ["shared/elusiv-proc-macros/src/elusiv_account.rs", "shared/elusiv-types/src/bytes.rs", "elusiv/src/types.rs"], [("generated accessors", "shared/elusiv-proc-macros/src/elusiv_account.rs"), ("containers loaded entry by entry", "elusiv/src/types.rs")])
p("S03", "What is stored is what is read back, in exactly the declared number of bytes",
  "Every type kept in accounts or passed in instructions, written and read again, is the same value; reading consumes exactly the bytes written and fails on none of them. The number of bytes is the one the type declares for its field, for every value of the type.",
  I, "all values of all stored and transmitted types of both programs", "Each type has hand-written or derived code for both directions and a size of its own; tests try sample values of a few.", ["shared/elusiv-types/src/bytes.rs", "shared/elusiv-derive/src/borsh_serde_sized.rs", "elusiv/src/types.rs", "elusiv/src/bytes.rs"], [("representations", "elusiv/src/bytes.rs"), ("derived sizes", "shared/elusiv-derive/src/borsh_serde_sized.rs")])
p("S01", "Addresses of different records differ, and each record has one address",
  "Every record's constant address is the one derived from its seed and its own program's id, in test and mainnet builds. All addresses of one kind of record are derived from the same components, each of fixed length, and no two kinds, owners or indices give the same bytes to derive from. Records are created at the address with the canonical bump, except a depositor's scratch record.",
  I, "all kinds of records of both programs, owners and indices, test and mainnet builds", "The derivation joins seeds without separators, so one kind's name plus index may read as another's; and mainnet constants are in no test.", ["shared/elusiv-types/src/accounts.rs", "shared/elusiv-derive/src/pda_account.rs", "shared/elusiv-proc-macro-utils/src/lib.rs"], [("address constants", "shared/elusiv-derive/src/pda_account.rs"), ("derivation", "shared/elusiv-types/src/accounts.rs")],
  technique="recomputation of compile-time constants; path-sensitive dataflow over compiler MIR")
p("S04", "A record's memory continues only in the accounts attached to it",
  "Whatever accounts an instruction is given, an account is used as part of a record only if it is the one attached at that place of that record, belongs to the program and can be written if the instruction writes. Places for which no such account is given stay empty, and no instruction uses such accounts without this search.",
  I, "all account lists, orders and attachments, all instructions", "Needs accounts in unexpected order, foreign accounts and gaps; the one test uses a sample record.", ["shared/elusiv-types/src/accounts.rs", "shared/elusiv-derive/src/elusiv_instruction.rs", "shared/elusiv-proc-macros/src/elusiv_account.rs"], [("search for attached accounts", "shared/elusiv-types/src/accounts.rs")])
p("S05", "Values are equal exactly if all their parts are, and copies are exact",
  "Two values of a type of the programs (requests, proofs, fees, optional values, states) compare as equal exactly if they are of the same kind and equal in every part. A copy of a value has every part of its source.",
  I, "all pairs of values of all types the programs compare or copy", "Comparison of requests, fees and states decides duplicates and stages; one that overlooks a part is right for every sample that differs elsewhere.", ["shared/elusiv-types/src/bytes.rs", "elusiv/src/types.rs", "elusiv/src/fields.rs", "elusiv/src/state/proof.rs", "shared/elusiv-types/src/tokens.rs"], [("optional values", "shared/elusiv-types/src/bytes.rs"), ("types of requests", "elusiv/src/types.rs")],
  technique="case analysis per variant and value numbering over compiler MIR")

p("F12", "A token id stands for one listed token: its mint, precision, prices and limits",
  "In both programs, on test and main network, a token's number means the same listed token: its mint, precision, price account and amount limits are exactly the listed ones. No mint or price account stands for two tokens, and the limits of every token leave room and fit the price arithmetic.",
  I, "all tokens, both programs, test and mainnet builds", "The table is generated code, compiled per network; tests read three entries of the test build.", ["shared/elusiv-proc-macros/src/parse_tokens.rs", "shared/elusiv-types/src/tokens.rs"], [("table of tokens", "shared/elusiv-proc-macros/src/parse_tokens.rs")],
  technique="recomputation of compile-time constants from the compiler's type-checked program")
