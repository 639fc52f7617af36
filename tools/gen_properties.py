import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
E="elusiv/src/"
W="elusiv-warden-network/src/"
p("F01","Program funds are conserved and always cover outstanding obligations",
 "Over every history of instructions, failed ones included, the lamports and SPL tokens held by the shielded pool and by the fee collector change only by amounts the protocol prescribes: deposits, prepaid fees, network fees, subventions, payouts, compensations and rent. The pool always holds at least the unspent deposits of every token, the fees still owed for pending hashing and verification, and its own rent. Nothing a client chooses (amounts, accounts, ordering, failing or forged requests, repeated instructions) lets anyone take more out than they are entitled to.",
 ["histories","inputs"],"all instruction histories over lamports and every supported SPL token, all amounts and fees, valid and invalid proofs",
 "Unit tests call single handlers on hand-made accounts with one amount; solvency is a sum over whole interleaved histories of stores, hashing, sends, refunds and failures.",
 [E+"processor/commitment.rs",E+"processor/proof.rs",E+"processor/utils.rs",E+"state/fee.rs","shared/elusiv-utils/src/lib.rs"],
 [("store transfers","store_base_commitment"),("hash compensation","finalize_base_commitment_hash, compute_commitment_hash"),("verification fees and payout","init_verification_transfer_fee, finalize_verification_transfer_lamports/token")])
p("F02","Depositing charges exactly the amount, the fees and nothing else",
 "A deposit is accepted only if the amount is within the token's permitted range, the fee schedule version and batching rate are the current ones and the deposit's values are valid field elements; then the depositor pays exactly amount + network fee + computation fee (less subvention) in the deposited token, the pool receives exactly the amount plus the lamports needed for the later hashing, the fee collector exactly the network fee less the subvention, and the relayer is made whole. A rejected deposit moves nothing and leaves no account behind.",
 ["inputs","histories"],"all deposit requests (amount, token, recent-commitment index, fee version, rate), price feeds and account balances",
 "Tests sample one or two amounts per token; the exact split depends on amount, token, oracle prices, fee schedule and boundary values.",
 [E+"processor/commitment.rs",E+"state/fee.rs",E+"token.rs"],
 [("deposit handling","processor/commitment.rs store_base_commitment"),("fee schedule","state/fee.rs ProgramFee")])
p("F03","A finalized send pays exactly the right parties exactly once",
 "When a verified send or merge is finalized, the recipient receives exactly the public amount less the optional fee, the optional-fee collector exactly that optional fee, the relayer exactly its hashing and verification refund plus the rents it reserved, and the fee collector exactly the network fee; when the proof was rejected the recipient receives nothing, and only the reserved rents, the subvention and the prepaid hashing fee are returned to the fee collector. This holds for lamports and SPL tokens, for wallets, existing and to-be-created token accounts, and a request can be paid out at most once.",
 ["inputs","histories"],"all finalized requests: token, amounts, optional fee, recipient kind, proof verdict, account existence",
 "Existing tests use a hand-made verification account and one amount; they never compare all balances of all parties over complete flows.",
 [E+"processor/proof.rs"],
 [("payout in lamports","finalize_verification_transfer_lamports"),("payout in SPL tokens","finalize_verification_transfer_token")])
p("F04","Upfront fee of a send equals the published fee schedule",
 "Starting a send is accepted only if the user-declared fee covers the prepaid commitment hashing, proof verification and network fee of the fee schedule in force, converted into the send's token with the current price; the relayer fronts exactly those lamports and the subvention, and these are the amounts recorded for the later refund. Fee amounts are a deterministic function of the governor's schedule, batching rate, input count and price, with ceiling division so the pool never receives less than it will pay for the hashing work.",
 ["inputs","configurations"],"all fee schedules, batching rates, token prices, amounts, declared fees around the boundary",
 "The fee formulas are only tested for the default schedule and one price; boundaries (one unit too little, maximal prices, uneven divisions) are not.",
 [E+"state/fee.rs",E+"processor/proof.rs",E+"token.rs","shared/elusiv-types/src/tokens.rs"],
 [("upfront fee","init_verification_transfer_fee"),("schedule","ProgramFee, BasisPointFee"),("price conversion","TokenPrice")])
p("N01","No note can be spent twice",
 "Once a nullifier has been recorded in a tree by a finalized send, no further send using that nullifier of that tree can ever be started or completed, and two sends with overlapping nullifiers that are in flight at the same time can never both pay out. The protection also covers one request listing the same nullifier twice, retries, relayers racing each other and intermediate failures, and ends for an in-flight request only when it is completed or rejected.",
 ["histories","schedules","inputs"],"all interleavings of two or more send flows with shared nullifiers, with valid and invalid proofs",
 "The unit tests check a single duplicate on empty state; races between verifications in different phases are histories.",
 [E+"processor/proof.rs",E+"state/nullifier.rs",E+"state/proof.rs"],
 [("nullifier check","init_verification / NullifierAccount::can_insert_nullifier_hash"),("in-flight lock","NullifierDuplicateAccount"),("recording","finalize_verification_insert_nullifier")])
p("N02","The nullifier set behaves as an exact ordered set",
 "After any sequence of insertions of distinct or repeated values, membership is reported for exactly the inserted values, duplicates and insertions beyond the capacity are rejected without changing the contents, and values spread over all storage segments in the documented capacity. Minimum/maximum bookkeeping never makes an inserted value invisible.",
 ["inputs","histories"],"all insertion sequences, including sorted, reverse, clustered, boundary and capacity-filling ones",
 "Unit tests insert a few sequences into small maps; wrong bookkeeping only shows for particular orders or fill levels.",
 [E+"map.rs",E+"state/nullifier.rs"],
 [("ordered map","map.rs ElusivMap/ElusivSet"),("segments","state/nullifier.rs NullifierAccount")])
p("M01","The commitment tree equals the Merkle tree of the finalized commitments",
 "After every finalized batch the stored root and all stored inner nodes equal those of the reference Poseidon Merkle tree over exactly the commitments finalized so far in order, padded with the fixed zero values; leaves are append-only and never rewritten. When the tree is full no further batch can start, and a closed tree's final root is preserved unchanged.",
 ["histories","inputs"],"all batches of all batching rates at all positions (start, segment boundaries, end of the tree), all hash interleavings",
 "Unit tests verify single insertions into an empty tree; node addressing across storage segments, batches and a nearly full tree needs long histories.",
 [E+"state/storage.rs",E+"state/commitment.rs",E+"commitment/mod.rs",E+"processor/commitment.rs"],
 [("insertion","CommitmentHashingAccount::update_mt, StorageAccount"),("reset","reset_active_merkle_tree")])
p("M02","Only current or genuinely historic roots are accepted",
 "A send is admitted only if each referenced root is the active tree's current root, one of its recent historic roots, or the final root of a closed tree that actually exists; any other value, including the empty root of a tree that has not been opened, stale roots beyond the window and roots of the wrong tree, is rejected. Every root within the window is accepted.",
 ["histories","inputs"],"all root/tree-index pairs after all numbers of finalized batches",
 "Tests try a couple of constants against an empty tree; which roots are valid depends on the whole insertion history.",
 [E+"state/storage.rs",E+"state/nullifier.rs",E+"processor/proof.rs"],
 [("root check","init_verification / StorageAccount::is_root_valid"),("history","active_mt_root_history")])
p("C01","Each accepted deposit becomes exactly one leaf, in order, with its metadata",
 "Each accepted deposit and each finalized send contributes exactly one commitment to the queue and then exactly one leaf to the tree, in acceptance order, never lost, duplicated, altered or reordered, across any interleaving of hashings, batches, retries and failures. A deposit's leaf equals the Poseidon hash of its base commitment with the public amount, token and recent-commitment index, and the metadata stored at the leaf's position is the metadata submitted with that very commitment.",
 ["histories","schedules"],"all interleavings of concurrent base-commitment hashings, sends and batch hashings at every batching rate, including queue-full situations",
 "Tests exercise each step in isolation; loss and reordering are properties of multi-instruction histories.",
 [E+"processor/commitment.rs",E+"processor/proof.rs",E+"state/commitment.rs",E+"state/metadata.rs",E+"state/queue.rs"],
 [("deposit","store/compute/finalize_base_commitment_hash"),("batch","init_commitment_hash_setup/init/compute/finalize_commitment_hash"),("metadata","MetadataQueue, MetadataAccount")])
p("C02","Queues and recent-value buffers behave as bounded FIFO and sliding window",
 "The commitment and metadata queues behave as a FIFO of the documented capacity under every sequence of enqueue, dequeue, view and bulk removal: no element lost, duplicated or reordered, and overfull or underfull operations rejected without effect. The duplicate-detection buffers report a value as present if and only if it is among the most recently inserted values of the window, for every insertion history.",
 ["histories","inputs"],"all operation sequences, in particular across wrap-around of the ring",
 "Unit tests use few fixed sequences; ring arithmetic errors only show at particular head/tail positions.",
 [E+"state/queue.rs",E+"buffer.rs",E+"state/commitment.rs"],
 [("ring queue","state/queue.rs RingQueue"),("window","buffer.rs RingBuffer")])
p("H01","Step-wise hashing equals one-shot Poseidon and cannot be cut short or overrun",
 "Splitting a Poseidon hash or a batch Merkle hash over the prescribed number of instructions yields exactly the reference result for every input, the number of instructions needed is exactly the published one, a result cannot be finalized before the last step and further steps after it are rejected. Distinct hashings that are interleaved do not influence each other.",
 ["inputs","schedules"],"all field-element inputs, all batching rates, all interleavings of several hashings",
 "Tests hash a few vectors; splitting points, state carried between instructions and interleaving are a product space.",
 [E+"commitment/mod.rs",E+"commitment/poseidon_hash.rs",E+"state/commitment.rs","shared/elusiv-computation/src/lib.rs"],
 [("partial hash","compute_base_commitment_hash_partial, compute_commitment_hash_partial"),("Poseidon","BinarySpongeHashingState")])
p("V01","On-chain proof verdicts equal the reference Groth16 verifier",
 "For every verifying key, public input vector and proof, the verdict reached by the multi-instruction verifier equals the verdict of the standard Groth16 verification: a valid proof is accepted, and any proof that is wrong, altered, for other inputs or another key, has out-of-field or out-of-group points, or points at infinity, is rejected or refused. The result does not depend on how the steps are distributed over transactions, and unfinished verifications never count as accepted.",
 ["inputs","schedules"],"all proofs (honest, tampered, malformed, non-group), all public inputs including boundary field elements, all groupings of steps",
 "The repository verifies a handful of stored proofs; a soundness or completeness slip in field, curve or pairing code only shows for particular inputs.",
 [E+"proof/verifier.rs",E+"proof/vkey.rs",E+"fields.rs",E+"state/proof.rs"],
 [("partial verifier","proof/verifier.rs verify_partial"),("prepared keys","proof/vkey.rs"),("field and curve arithmetic","fields.rs")])
p("V02","Every public aspect of a request is bound into the proof's public inputs",
 "The public inputs the proof is checked against are computed from the submitted request and are, for every request, the documented encoding: each nullifier, root and the output commitment, the recent-commitment index, total amount and token, and the hash of the recipient, identifier, iv, encrypted owner, transaction reference, the choice to create a token account, metadata, optional fee (collector and amount) and memo. Changing any of these fields changes the public inputs, and requests whose nullifiers, roots or output commitment are not canonical field elements or whose shape is invalid are rejected.",
 ["inputs"],"all requests and all single-field modifications of them",
 "Tests pin the encoding of a single request; binding is a statement about all pairs of requests.",
 [E+"types.rs",E+"processor/proof.rs"],
 [("encoding","types.rs SendPublicInputs/MigratePublicInputs"),("input hash","generate_hashed_inputs"),("checks","init_verification")])
p("V03","A send advances only through its phases, once each, and pays only if verified",
 "Whatever order, repetition or interleaving of instructions clients submit, a send moves only forward through start, fee payment, proof submission, verification, data check, nullifier insertion and payout, each effect happening at most once and only after its predecessors, and by the party that paid for it where required. The verified flag can only become true by a completed successful verification, no payout to the recipient, output commitment or nullifier insertion happens without it, and after the payout the request is gone and its slot reusable.",
 ["schedules","histories"],"all instruction orders over one and several concurrent requests, with repeated and skipped steps",
 "The tests call each handler with a hand-set state; orderings are exponentially many.",
 [E+"processor/proof.rs",E+"state/proof.rs"],
 [("phases","VerificationState/VerificationAccount"),("handlers","init_verification .. finalize_verification_transfer_*")])
p("V04","A send can only be finalized with exactly the data it was proven for",
 "Finalization succeeds only with the recipient, identifier, transaction reference, memo, encrypted owner, iv, optional-fee collector, token and total amount that are bound in the proof, and pays only that recipient and collector; any deviating value or account is refused and changes nothing. Companion instructions that must be in the same transaction (remaining finalization steps, the memo, the final direct transfer of a payment request) are enforced, one companion never serving two payouts.",
 ["inputs","histories"],"all finalization data deviating in one or more components, all transaction compositions",
 "Tests modify a couple of fields of one request; which component goes unchecked is a question over all of them and over whole transactions.",
 [E+"processor/proof.rs",E+"types.rs"],
 [("data check","finalize_verification_send"),("companions","enforce_finalize_send_instructions, solana-pay and memo checks")])
p("A01","Instructions act only on authentic, authorised accounts",
 "An instruction that succeeds has been given the genuine account for every role: program-derived accounts at their derivation with the program as owner, the registered storage segments of the right parent, the true system, token and associated-token programs, mints, sysvars and price feeds, the program's own token accounts, and real signatures where required. Replacing any one account by another (foreign-owned copy, other derivation or token, other user's account) or dropping a signature never lets the instruction succeed with a different effect on protocol state or funds.",
 ["inputs"],"every account slot of every instruction, with look-alike, foreign, other-instance, wrong-token and unsigned replacements",
 "The repository fuzzes a few account slots of a few instructions; the property covers every slot of every instruction in live state.",
 [E+"instruction.rs",E+"processor/utils.rs",E+"processor/accounts.rs","shared/elusiv-derive/src/elusiv_instruction.rs","shared/elusiv-types/src/accounts.rs"],
 [("account checks","generated by the ElusivInstruction derive"),("token accounts","verify_program_token_account"),("segments","ParentAccount::find_child_accounts")])
p("A02","One-time setup happens once and storage segments are bound once",
 "Every singleton and program-derived account can be created once, with the right size and initial contents, and never be re-initialised or shrunk; a storage segment is accepted only if it has the exact size, is owned by the program, is unused, and fills an unset position, and afterwards can neither be bound again nor be replaced. Fee schedule versions are immutable and consecutive and become effective only through the governor.",
 ["histories","inputs"],"all setup histories including repeated, reordered and malformed setup instructions",
 "Tests run the setup once in its intended order.",
 [E+"processor/accounts.rs",E+"state/program_account.rs","shared/elusiv-types/src/accounts.rs","shared/elusiv-utils/src/lib.rs"],
 [("setup","open_single_instance_accounts, open_nullifier_account, enable_*_child_account, init_new_fee_version"),("creation","open_pda_account")])
p("K01","Verifying keys change only by their authority and never after freezing",
 "A verifying key's data, version and authority can be changed only by its current deploy authority, data is written exactly at the addressed position of the pending version and nowhere else, a new version takes effect only through an explicit update that increments the version number and retires the replaced data, and after freezing nothing can ever change. The key used for a verification is exactly the bytes the authority uploaded for the version in effect.",
 ["histories","inputs"],"all histories of key management instructions by authorised and unauthorised signers, all packet positions",
 "Tests cover each management instruction on a fresh account; authority over time and freezing are history properties.",
 [E+"processor/vkey.rs",E+"state/vkey.rs",E+"proof/vkey.rs"],
 [("management","create_vkey_account, set_vkey_data, create_new_vkey_version, update_vkey_version, freeze_vkey, change_vkey_authority")])
p("T01","Token amounts and price conversions are exact and checked",
 "Token amount arithmetic is exact on equal tokens and fails, rather than wrapping or mixing tokens, otherwise; conversion of lamports to a token with oracle prices yields the value of the documented fixed-point price algorithm (base price conversion, then amount times price, rounded to the prescribed side) for every feed exponent and confidence interval, or an error when the price is unavailable or the converted value is negative or not representable. Construction with an unknown token or an amount outside the permitted range is rejected.",
 ["inputs"],"all amounts, tokens, prices, exponents, confidences and publish times including extremes",
 "Unit tests use a few prices; rounding and overflow are only visible at extremes.",
 [E+"token.rs","shared/elusiv-types/src/tokens.rs"],
 [("amounts","Token, Lamports, SPLToken"),("prices","TokenPrice, pyth access")])
p("S01","Account and instruction encodings are faithful and bounded",
 "Every persisted type and instruction encodes to exactly its declared fixed size (or minimal form) and decodes back to an equal value; field accessors of an account read and write exactly their own byte range and never disturb neighbouring fields. Arbitrary, truncated or oversized input bytes are either decoded or rejected, never accepted with a different meaning and never altering state on rejection.",
 ["inputs"],"all values of the persisted types, all accessor sequences, arbitrary instruction bytes",
 "Unit tests round-trip a few values; offset errors appear only for particular fields and neighbours.",
 [E+"bytes.rs",E+"types.rs",E+"state/program_account.rs","shared/elusiv-types/src/bytes.rs","shared/elusiv-proc-macros/src/elusiv_account.rs","shared/elusiv-derive/src/borsh_serde_sized.rs"],
 [("account accessors","generated by the elusiv_account macro"),("sized encoding","BorshSerDeSized, ElusivOption, lazy fields")])
p("O01","No accepted transaction depends on integer wrap-around",
 "Every transaction the deployed (unchecked-overflow) program accepts is accepted with the same effects by the program built with overflow detection; no amount, index, fee or time value a client or the environment supplies can make an accepted instruction wrap. Rejected transactions leave all accounts unchanged in both builds.",
 ["inputs","histories"],"all histories with extreme integer values in every request field, configuration and feed",
 "The test build traps overflows, the deployed build wraps; no test compares the two on the same inputs.",
 [E+"processor/commitment.rs",E+"processor/proof.rs",E+"state/fee.rs",E+"types.rs","shared/elusiv-types/src/tokens.rs"],
 [("amount arithmetic","JoinSplit totals, BasisPointFee, TokenPrice"),("index arithmetic","queue, map and tree positions")])
p("L01","Honest clients always make progress within the published number of steps",
 "For an honest client with sufficient funds, every deposit, hashing batch and send with a valid proof completes within the published number of instructions in any admissible state of the system, regardless of what other clients do to their own requests. Rejected or abandoned requests of others never block the queue, the tree, or somebody else's finalization.",
 ["histories","schedules"],"all admissible system states reached by random histories with hostile clients; progress is bounded by the published step counts",
 "Tests run one flow on an empty system.",
 [E+"processor/commitment.rs",E+"processor/proof.rs","shared/elusiv-computation/src/lib.rs"],
 [("step counts","COMMITMENT_HASH_TX_COUNT and per-rate instruction counts"),("flows","all handlers")])
p("W01","Warden registration assigns unique identities to authorised keys",
 "Each successful registration consumes exactly the next identity, is signed by the registering key, is recorded once under that key and in the network's member list with the submitted configuration, and neither a key nor an identity can ever be registered twice. Warden state, lookup table and operator confirmations can be changed only by the respective warden or operator, affect only the named warden, and every change is persisted with its timestamp.",
 ["histories","inputs"],"all histories of registrations and updates by many honest and hostile signers",
 "Integration tests cover one or two wardens and cannot run here; uniqueness is over histories.",
 [W+"processor/basic_warden.rs",W+"processor/operator.rs",W+"network.rs",W+"warden.rs"],
 [("registration","register_basic_warden"),("updates","update_basic_warden_state, update_basic_warden_lut, confirm_basic_warden_operation, register_warden_operator")])
p("W02","Metadata attestation is authorised, persisted and consistent",
 "Only the attestation authority can appoint or revoke attesters, only an appointed attester can attest, and an attestation persists the attested network number, timezone, region and proxy use together with whether the warden's own claim was truthful, in the warden's record and in the network's member list alike. Attesting under a wrong member position or for another warden changes nothing.",
 ["histories","inputs"],"all histories of appointments, revocations and attestations by authorised and unauthorised signers",
 "No test observes the persisted record after an attestation.",
 [W+"processor/basic_warden.rs",W+"network.rs"],
 [("attestation","add_metadata_attester, revoke_metadata_attester, attest_basic_warden_metadata")])
p("W03","The attestation network genesis follows its phases and binds quotes to members",
 "Each of the fixed number of members applies once, its two quote halves are stored under its own member position, confirmation starts only when all quotes are complete, and a member's confirmation counts only once, only signed by the key committed in its quote and only over the hash of exactly the stored quotes in member order. The network is confirmed if and only if all members have confirmed.",
 ["histories","schedules"],"all orders of applications, completions and confirmations by registered wardens whose identities differ from their member positions",
 "The tests use members whose identity equals their position and one order.",
 [W+"processor/apa_warden.rs",W+"network.rs"],
 [("phases","ApaWardenNetworkAccount")])
p("W04","Activity statistics count exactly the tracked relayed transactions",
 "Activity tracking increases exactly the counter of the current calendar day and the yearly total, by one, if and only if the immediately preceding instruction is a tracked relay instruction of the main program performed by that warden, for the year of the statistics account; otherwise nothing is counted and, where requested, the transaction fails. Day-of-year and year are correct for every timestamp of the supported century and anything outside is rejected.",
 ["inputs","histories"],"all timestamps of 2000-2099 and around, all preceding instructions, all tracking histories",
 "Tests only look at the returned result on a few instructions and timestamps.",
 [W+"processor/basic_warden.rs",W+"processor/utils.rs",W+"warden.rs"],
 [("tracking","track_basic_warden_stats, WardenStatistics"),("calendar","unix_timestamp_to_day_and_year")])
p("W05","Proposals are numbered consecutively and stored with authentic author and time",
 "Each accepted proposal gets the next number, is stored unchanged except that its author is the signer and its time the chain time, and proposals restricted to a token are accepted only for existing tokens and, when claiming freeze authority, only from the token's actual freeze authority using the token's real mint. Rejected proposals leave the counter and all accounts unchanged.",
 ["histories","inputs"],"all proposal sequences with all roles, token constraints, mints and signers",
 "Tests sample one proposal per role.",
 [W+"processor/apa.rs",W+"apa.rs"],
 [("proposals","propose_apa_proposal")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x["title"]) for x in P))
