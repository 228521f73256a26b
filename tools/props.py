#!/usr/bin/env python3
"""Single source of properties.jsonl (run: python3 tools/props.py). Every entry: id, title, statement, over, qtext, why, files, mechanism[(name, where)], observe."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, observe=observe or ["result of process_instruction"], na=na))

PR = "src/processor/"
LO = PR + "utils/loaders.rs"
UP = PR + "utils/pda.rs"
ALLP = [PR + f + ".rs" for f in ("delegate commit_state commit_state_from_buffer finalize undelegate init_protocol_fees_vault "
        "init_validator_fees_vault close_validator_fees_vault validator_claim_fees protocol_claim_fees whitelist_validator_for_program "
        "top_up_ephemeral_balance delegate_ephemeral_balance close_ephemeral_balance").split()]
IN = ["inputs"]
IH = ["inputs", "histories"]

# ---------------------------------------------------------------- authority
prop("A01", "An instruction succeeds only if the party it acts for signed it",
 "Whenever an instruction succeeds, the party it acts for has signed: the validator for commit, commit-from-buffer, finalize, undelegate and validator fee claims; the payer and the delegated account for delegate; the payer and the balance's owner for delegating an ephemeral balance; the owner for closing an ephemeral balance; the admin or authority for vault administration, protocol fee claims and whitelisting. Whoever pays for a created account or a top-up has also signed.",
 IN, "every account list, signer flag combination and instruction data, including instructions that succeed without doing anything",
 "The tests always send correctly signed transactions; no test omits a signature on any of the 14 instructions.",
 ALLP + [LO], [("load_signer, and the system program's own check on debited accounts", LO)])
prop("A02", "Vault administration and protocol claims need the upgrade authority",
 "Creating or closing a validator's fees vault and claiming the protocol's fees succeed only if the admin account signed and is the current upgrade authority of the delegation program itself. If the program has no upgrade authority these instructions always fail.",
 IN, "every admin key, program-data account content and account list",
 "Tests use the one authorised test key, and the test build short-circuits the upgrade-authority lookup, so the rejecting paths and the production lookup are never executed.",
 [PR+"init_validator_fees_vault.rs", PR+"close_validator_fees_vault.rs", PR+"protocol_claim_fees.rs", LO],
 [("comparison of the admin key with load_program_upgrade_authority", LO)])
prop("A03", "Only the delegation or target program's authority edits a whitelist",
 "A validator is added to or removed from a program's whitelist only if the signing authority is the upgrade authority of the delegation program or the upgrade authority of that very program.",
 IN, "every authority, program, program-data account and account list",
 "Only the accepting path with the test admin key is exercised.",
 [PR+"whitelist_validator_for_program.rs", LO], [("validate_authority", PR+"whitelist_validator_for_program.rs")])
prop("A04", "Upgrade authorities are read only from the genuine program-data account",
 "In a production build, the upgrade authority attributed to a program is always the one stored in the account that the upgradeable loader derives from that program's id; an account at any other address or that does not hold program data is rejected, and no key is accepted for being hard-coded.",
 ["inputs", "configurations"], "every program id and every account presented as its program data, with the test configuration off",
 "The test suite compiles the program with the test configuration on, which replaces exactly this lookup.",
 [LO], [("load_program_upgrade_authority", LO)])
prop("A05", "Only validators with a registered fees vault can act on accounts",
 "Commit, commit-from-buffer, finalize, undelegate and validator fee claims succeed only if the fees-vault account presented is at the address derived from the acting validator's key and exists as an account owned by the delegation program. A fees vault at such an address is created only by the admin instruction.",
 IN, "every validator key and vault account",
 "All tests register the validator first; none presents a missing, foreign or other validator's vault.",
 [LO, PR+"commit_state.rs", PR+"finalize.rs", PR+"undelegate.rs", PR+"validator_claim_fees.rs"], [("load_initialized_validator_fees_vault", LO)])
prop("A06", "A program's validator whitelist is enforced on every commit",
 "A commit (direct or from a buffer) that is recorded refers to the whitelist account derived from the owner program stored in the delegation record; if that whitelist exists, the commit is recorded only when the acting validator is a member of the set stored in it.",
 IN, "every owner program, whitelist content and validator",
 "Two tests sample one member and one non-member; other accounts in the whitelist slot and the from-buffer path are untested.",
 [PR+"commit_state.rs", LO], [("load_program_config and the approved_validators lookup", PR+"commit_state.rs")])
prop("A07", "Delegation proves the account belongs to the named owner program",
 "Delegate succeeds only for an account already owned by the delegation program; if its address is not on the ed25519 curve, the address must be the one derived from the supplied seeds under the named owner program, or under the delegation program itself when the named owner is the system program. The buffer the data is restored from must be at the address derived from the account under the named owner program.",
 IN, "every account, owner program, seed list and buffer account",
 "Tests delegate one PDA and one on-curve account with the right seeds and owner.",
 [PR+"delegate.rs", PR+"utils/curve.rs"], [("seed validation and buffer address check", PR+"delegate.rs")])
prop("A08", "State accounts are accepted only at their derived address and owner",
 "An instruction that succeeds has checked that every delegation record, delegation metadata, pending state, pending commit record, protocol or validator fees vault, whitelist, undelegation buffer and ephemeral balance account it uses is at the address derived for its role from the delegated account, validator, program or payer key concerned. Where the account must already exist, it has also checked that the account is owned by the delegation program.",
 IN, "every substitution of one account for another in every instruction",
 "Tests pass the right accounts; the number of wrong account lists is unbounded.",
 ALLP + [LO, "src/pda.rs"], [("load_initialized_pda, load_uninitialized_pda, load_pda and their wrappers", LO)])
prop("A09", "Undelegation only pays back the recorded owner and rent payer",
 "Undelegate succeeds only if the owner program account is the owner stored in the delegation record and the reimbursed account is the rent payer stored in the delegation metadata.",
 IN, "every owner program and reimbursement account", "Tests always pass the stored owner and rent payer.",
 [PR+"undelegate.rs"], [("owner and rent_payer comparisons", PR+"undelegate.rs")])
prop("A10", "A pending commit is finalized only by the validator that made it",
 "A pending commit takes effect only if the signing validator is the identity stored in the commit record and the delegated account is the account stored in it.",
 IN, "every validator, pending record and delegated account", "Tests finalize with the committing validator only.",
 [PR+"finalize.rs"], [("identity and account comparisons", PR+"finalize.rs")])
prop("A11", "An ephemeral balance can be moved only by the key it is derived from",
 "Closing or delegating an ephemeral balance succeeds only for the balance derived from a key that signed the instruction and the given index. A closed balance's lamports all go to that key and to nobody else.",
 IN, "every payer, owner key, index and balance account", "Tests close and delegate only their own balances.",
 [PR+"close_ephemeral_balance.rs", PR+"delegate_ephemeral_balance.rs"], [("load_signer on the owner key plus derived address check", PR+"delegate_ephemeral_balance.rs")])

prop("A12", "Calls go only to the system program, the recorded owner and itself",
 "Every cross-program call on the way to a success goes to the system program, except that undelegate also calls the owner program stored in the delegation record, and delegating an ephemeral balance calls the delegation program itself. No account supplied by the caller can redirect a call.",
 IN, "every account list, including counterfeit system or owner programs", "Tests pass the genuine programs only.",
 ALLP + [UP], [("program ids of invoke and invoke_signed", PR)])
# ---------------------------------------------------------------- lifecycle
prop("L01", "Delegation happens once and records exactly what was agreed",
 "Delegate succeeds only if neither the delegation record nor the delegation metadata exists, and it creates both, owned by the delegation program. The record holds the named owner program, the requested validator (or the default key), the requested commit frequency, the current slot and the account's lamports; the metadata holds the supplied seeds, the payer as rent payer, last update slot 0 and undelegation not yet allowed.",
 IH, "every instruction data and account state, including accounts that are already delegated or whose record addresses were funded in advance",
 "Tests inspect one or two delegations of fresh accounts.",
 [PR+"delegate.rs", "src/state/delegation_record.rs", "src/state/delegation_metadata.rs"], [("load_uninitialized_pda and create_pda on record and metadata", PR+"delegate.rs")])
prop("L02", "A commit needs a delegated account with no commit pending",
 "A commit is recorded only for an account that is owned by the delegation program and has both a delegation record and delegation metadata, and only if neither a pending state nor a pending commit record exists for it. Recording a commit creates both pending accounts, owned by the delegation program.",
 IH, "every account state at the time of the commit, with and without an earlier pending commit",
 "Tests commit once to a freshly delegated account.",
 [PR+"commit_state.rs"], [("load_owned_pda, load_initialized_*, load_uninitialized_pda", PR+"commit_state.rs")])
prop("L03", "An outdated commit is skipped without any effect",
 "A commit whose slot is lower than the account's last update slot succeeds without changing any account: nothing is created, transferred or written. A commit is recorded only when its slot is at least the last update slot.",
 IH, "every commit slot and every recorded last update slot", "No test sends an outdated slot.",
 [PR+"commit_state.rs"], [("slot comparison and early return", PR+"commit_state.rs")])
prop("L04", "The last update slot follows finalized commits only",
 "The last update slot of a delegated account is 0 at delegation and afterwards is changed only by finalizing a commit, which sets it to exactly the slot stored in the pending commit record. Together with the acceptance rule for commits it can never decrease.",
 IH, "every sequence of instructions", "Tests check at most one update of the slot.",
 [PR+"commit_state.rs", PR+"finalize.rs", PR+"delegate.rs"], [("last_update_external_slot assignments", PR+"finalize.rs")])
prop("L05", "Allowing undelegation is a latch set only by a commit",
 "Whether an account may be undelegated starts as no and becomes exactly what a recorded commit requested. Once it is yes, no further commit is recorded for that delegation, and no instruction other than a commit changes it.",
 IH, "every sequence of commits, finalizations and undelegations", "Tests run one commit with the flag set and never commit again after it.",
 [PR+"commit_state.rs", PR+"finalize.rs", PR+"delegate.rs"], [("is_undelegatable test and assignment", PR+"commit_state.rs")])
prop("L06", "Undelegation needs permission and no pending commit",
 "Undelegate succeeds only if the delegation metadata says the account may be undelegated, the account is owned by the delegation program, its record and metadata exist, and neither a pending state nor a pending commit record exists.",
 IH, "every account state at the time of undelegation", "One test covers the missing permission; pending commits are never tested.",
 [PR+"undelegate.rs"], [("is_undelegatable test and load_uninitialized_pda on the pending accounts", PR+"undelegate.rs")])
prop("L07", "Undelegation ends the delegation completely",
 "After a successful undelegate the delegation record, the delegation metadata and the temporary buffer (if one was made) are closed: no lamports, no data, owned by the system program. The delegated account is either assigned to the recorded owner program (when it holds no data) or closed and handed to that program through its undelegation handler.",
 IN, "every account content and every path through undelegation", "Tests sample one PDA and one on-curve account.",
 [PR+"undelegate.rs", UP], [("process_delegation_cleanup, close_pda, cpi_external_undelegate", PR+"undelegate.rs")])
prop("L08", "Finalize either does nothing or completes the whole commit",
 "Finalize succeeds without effect only when neither a pending state nor a pending commit record exists. Otherwise a success means that the committed lamports were settled, the delegated account's data, the delegation record and the delegation metadata were updated, and both pending accounts were closed; no success leaves a commit partly applied or still pending.",
 IH, "every combination of present and absent pending accounts", "Tests finalize fully pending commits only.",
 [PR+"finalize.rs"], [("skip condition, settlement, copy and close_pda calls", PR+"finalize.rs")])
prop("L09", "Fees vaults are created once, at their own address, program-owned",
 "Initializing the protocol vault or a validator's vault succeeds only if the account is the vault's derived address and does not exist yet, and leaves it an 8-byte account owned by the delegation program. Closing a validator's vault succeeds only for an existing vault.",
 IH, "every account presented as a vault, existing or not", "Tests initialize each vault once.",
 [PR+"init_protocol_fees_vault.rs", PR+"init_validator_fees_vault.rs", PR+"close_validator_fees_vault.rs"], [("load_uninitialized_pda, create_pda", UP)])

prop("L10", "Lamports sent in advance cannot block an instruction",
 "Delegate, commit, commit-from-buffer, undelegate, vault initialisation, whitelisting and top-up can succeed whatever balance the address of an account they create already holds: none, less than its rent minimum, or more.",
 IH, "every balance an address may hold before it is created, including balances sent by an attacker", "Tests create accounts at empty addresses, apart from one fixture.",
 [UP, LO], [("create_pda with transfer, allocate and assign when the address holds lamports", UP), ("load_uninitialized_pda", LO)])
prop("L11", "Legitimate situations are not refused",
 "No instruction rules out these situations: delegating with or without a chosen validator, on-curve, derived and system-program accounts, with an empty or filled buffer; committing less, equal or more lamports than recorded, at the last update slot or later, any state length, with or without whitelist, from an account that holds exactly its recorded lamports or more; finalizing less, equal or more lamports with shorter, equal, longer or empty data; undelegating accounts with and without data, when the validator is also the rent payer; claiming everything or an amount, down to the vault's minimum; inserting into a new or existing whitelist and removing; topping up, delegating and closing balances of every index, also when payer and owner are the same.",
 IH, "every combination of these situations with the rest of the inputs", "Tests exercise a handful of these situations with one set of values each.",
 ALLP, [("conditions of every handler", PR)])
prop("L12", "Record and metadata, and pending state and commit record, live and die together",
 "The delegation record and the delegation metadata of an account are created by the same instruction and closed by the same instruction, and so are its pending state and its commit record. No successful instruction leaves one of a pair without the other.",
 IH, "every sequence of instructions", "Tests never inspect both accounts of a pair after each instruction.",
 [PR+"delegate.rs", PR+"commit_state.rs", PR+"finalize.rs", PR+"undelegate.rs", UP], [("create_pda and close_pda of both accounts in one handler", PR)])
prop("L13", "A request that meets the stated requirements is never refused",
 "No instruction fails or aborts for reasons of its own when the request meets its requirements: the right number of accounts, each at the address and in the state (existing or not, of its type) the instruction needs; the required signers and writable flags; well-formed data; the acting party entitled; for a commit, a slot not below the last update slot and undelegation not yet allowed; for finalize and undelegate, a pending commit or permission as recorded; balances that cover what is recorded, pending or claimed. Beyond these only failing library calls, cross-program calls and the runtime stop an instruction, whatever the amounts, data, slots, seeds, indices and other balances are.",
 IH, "every amount, data, slot, seed list, index and balance outside the stated requirements", "Tests that expect success exercise a handful of values; a spurious refusal for any other value goes unnoticed.",
 ALLP, [("every error return and panic of every handler", PR)])
# ---------------------------------------------------------------- state/data
prop("S01", "Finalize installs exactly the committed data",
 "After a successful finalize of a pending commit, the delegated account's data is byte for byte the data of the pending state account, and has its length.",
 IN, "every committed data content and length, longer or shorter than the account's", "Tests compare a single fixed payload.",
 [PR+"finalize.rs"], [("realloc and copy_from_slice", PR+"finalize.rs")])
prop("S02", "A recorded commit stores exactly what the validator submitted",
 "A recorded commit leaves in the pending state account exactly the submitted data (from the instruction, or the whole content of the buffer account), and in the commit record the validator's key, the delegated account's key and the submitted slot and lamports.",
 IN, "every submitted payload, slot and lamport amount", "Tests check one payload per path.",
 [PR+"commit_state.rs", PR+"commit_state_from_buffer.rs"], [("CommitRecord construction and data copy", PR+"commit_state.rs")])
prop("S03", "Undelegation hands over exactly the account's state, and verifies it",
 "When a delegated account holds data, undelegate puts exactly that data in the temporary buffer and calls the recorded owner program with the account (writable), the buffer and the validator (both as writable signers) and the system program, passing the stored seeds after the undelegation discriminator. It succeeds only if afterwards the account's data equals the buffer's data.",
 IN, "every account content, seed list and behaviour of the owner program", "One test runs a well-behaved owner program; a program that restores wrong data is never tried.",
 [PR+"undelegate.rs"], [("cpi_external_undelegate and the post-CPI comparison", PR+"undelegate.rs")])
prop("S04", "Delegation restores the account's data from its buffer",
 "After a successful delegate the account's data is exactly the content of the delegation buffer if the buffer is not empty, and is untouched otherwise.",
 IN, "every buffer content", "Tests compare one payload.",
 [PR+"delegate.rs"], [("copy_from_slice from the buffer", PR+"delegate.rs")])
prop("S05", "Finalize resets the recorded balance to the account's real balance",
 "After a successful finalize of a pending commit, the lamports stored in the delegation record equal the delegated account's lamports after settlement, and no other part of the record changes.",
 IN, "every recorded, committed and actual balance", "The settlement tests sample four balance patterns.",
 [PR+"finalize.rs"], [("delegation_record.lamports assignment", PR+"finalize.rs")])
prop("S06", "The terms of a delegation never change while it lasts",
 "From delegation to undelegation, no instruction changes the recorded owner program, validator authority, delegation slot, commit frequency, seeds or rent payer of a delegated account. Only delegate, commit, finalize and undelegate ever write delegation records or metadata.",
 IH, "every instruction and every sequence of instructions", "Tests look at these fields after delegation only.",
 ALLP, [("whole-struct rewrites of DelegationMetadata and field writes of DelegationRecord", PR)])
prop("S07", "Whitelisting changes exactly one validator's membership",
 "A successful whitelist instruction leaves in the program's whitelist account the previous set (empty if the account did not exist) with the given validator inserted or removed as requested, and nothing else changed; the account is sized to exactly hold the stored set.",
 IH, "every previous set, validator and flag", "Tests insert one validator and remove it again.",
 [PR+"whitelist_validator_for_program.rs", "src/state/program_config.rs", UP], [("approved_validators insert/remove, resize_pda", PR+"whitelist_validator_for_program.rs")])
prop("S08", "Typed account data is always tagged and always checked",
 "Every read of account data as a delegation record, delegation metadata, commit record or whitelist checks that the data is at least 8 bytes long and starts with that type's own tag, and every initialisation or rewrite of such an account starts with that tag. The four tags are pairwise different and keep their published values.",
 IN, "every account content, including accounts of another type and truncated data", "Tests only read well-formed accounts.",
 ["src/state/utils/try_from_bytes.rs", "src/state/utils/to_bytes.rs", "src/state/utils/discriminator.rs"], [("discriminator comparison before decoding", "src/state/utils/try_from_bytes.rs")])

# ---------------------------------------------------------------- lamports
prop("M01", "Settlement moves exactly the difference, in the right direction",
 "Finalizing a pending commit moves exactly the difference between the recorded and the committed lamports: from the delegated account to the validator's fees vault if the committed amount is lower, from the pending state account to the delegated account if it is higher, and nothing if they are equal. It fails rather than move less.",
 IN, "every pair of recorded and committed balances", "Tests sample two differences of 100 lamports.",
 [PR+"finalize.rs"], [("settle_lamports_balance", PR+"finalize.rs")])
prop("M02", "A commit that raises the balance is fully collateralised",
 "When a recorded commit's lamports exceed the recorded balance, exactly the excess is added from the validator to the pending state account, which therefore holds at least the excess; otherwise no collateral is taken. Besides that, the validator pays only the creation rent that the pending accounts still lack. A commit is never recorded when the delegated account holds less than its recorded balance.",
 IN, "every recorded, actual and committed balance", "Tests sample one increase.",
 [PR+"commit_state.rs"], [("transfer of extra_lamports and the balance check", PR+"commit_state.rs")])
prop("M03", "No instruction creates or destroys lamports",
 "For every successful instruction, the lamports added to accounts by direct balance edits equal the lamports removed, whatever the balances, so the total over all accounts is unchanged; this also holds when one party plays two roles, such as a validator who is also the rent payer.",
 IN, "every balance of every account and every path that succeeds", "Tests compare a few balances on a few paths.",
 [UP, PR+"finalize.rs", PR+"undelegate.rs", PR+"validator_claim_fees.rs", PR+"protocol_claim_fees.rs", PR+"close_validator_fees_vault.rs"], [("paired checked_add/checked_sub edits", UP)])
prop("M04", "Undelegation splits the delegation rent by the fee schedule",
 "On undelegation, each of the record's and the metadata's lamports is split as follows: the fee is 10% rounded down; the protocol vault gets 10% of the fee rounded down, the validator's vault gets the rest of the fee, and the rent payer gets everything else.",
 IN, "every balance of the record and metadata accounts", "Tests check balances for one rent amount.",
 [UP, PR+"undelegate.rs", "src/consts.rs"], [("close_pda_with_fees", UP)])
prop("M05", "A validator claim takes exactly its amount and leaves the vault rent-exempt",
 "A successful validator claim removes exactly the requested amount (or, if none is given, everything above the minimum rent of an 8-byte account) from the validator's vault, never leaves less than that minimum rent in it, and credits 10% of the amount, rounded down, to the protocol vault and the rest to the validator.",
 IN, "every vault balance, including balances below the rent minimum, and every requested amount", "Tests claim twice from a well-funded vault; underfunded vaults and release-mode arithmetic are not exercised.",
 [PR+"validator_claim_fees.rs"], [("bounds check and checked edits", PR+"validator_claim_fees.rs")])
prop("M06", "A protocol claim takes everything above the rent minimum, and no more",
 "A successful protocol fee claim moves from the protocol vault to the admin exactly the lamports above the minimum rent of an 8-byte account; it fails if the vault holds less than that minimum.",
 IN, "every vault balance", "One test with one balance.",
 [PR+"protocol_claim_fees.rs"], [("min_rent bound and checked edits", PR+"protocol_claim_fees.rs")])
prop("M07", "Lamport and slot arithmetic never wraps around",
 "No lamport amount used by a successful instruction is the result of an addition, subtraction or multiplication that wrapped around or truncated, also in builds without overflow checks: each such operation is either checked with failure on overflow or cannot overflow because of conditions established before it.",
 ["inputs", "configurations"], "every balance and amount, with overflow checks off as in the deployed build", "Tests run in a build whose overflow checks hide wrap-around, with small amounts.",
 ALLP + [UP], [("checked_* operations and preceding bounds checks", UP)])
prop("M08", "Undelegation through the owner program keeps the account's lamports",
 "When undelegation hands the account to its owner program, all of the account's lamports first go to the validator, the instruction succeeds only if the owner program took exactly the minimum rent for the returned data from the validator, and the validator then transfers the remaining lamports (the original balance less that rent) to the account.",
 IN, "every balance, data length and behaviour of the owner program", "Tests use one honest owner program.",
 [PR+"undelegate.rs"], [("process_undelegation_with_cpi", PR+"undelegate.rs")])
prop("M09", "Closed accounts give their whole balance to the right beneficiary",
 "Closing the pending state and the commit record credits all their remaining lamports to the finalizing validator, closing the undelegation buffer credits the undelegating validator, and closing a validator's vault credits that validator; each closed account is left with no lamports, no data and system ownership.",
 IN, "every balance of the closed accounts", "Tests check existence, rarely who got the lamports.",
 [UP, PR+"finalize.rs", PR+"undelegate.rs", PR+"close_validator_fees_vault.rs"], [("close_pda", UP)])
prop("M10", "A top-up credits exactly the amount to the derived ephemeral balance",
 "A successful top-up moves exactly the requested amount from the payer to the ephemeral balance derived from the given key and index, besides the rent needed to create the balance account, which also comes from the payer.",
 IN, "every amount, key and index", "Tests use one or two amounts and index 0.",
 [PR+"top_up_ephemeral_balance.rs"], [("load_pda, create_pda, transfer", PR+"top_up_ephemeral_balance.rs")])
prop("M11", "Closing an ephemeral balance refunds it in full",
 "A successful close of an ephemeral balance that is not delegated transfers its entire lamports to the owner and leaves none; a delegated balance cannot be closed.",
 IN, "every balance and ownership state", "One test closes one balance.",
 [PR+"close_ephemeral_balance.rs"], [("owner check and transfer of the full balance", PR+"close_ephemeral_balance.rs")])

prop("M12", "Creating accounts costs exactly the missing rent",
 "An account created by delegate, vault initialisation or whitelisting ends with exactly the larger of what it already held and the rent minimum of its size; a whitelist that grows is brought up to the rent minimum of its new size in the same way. The instruction's payer pays exactly that difference and nothing else.",
 IN, "every prior balance, size and payer", "Tests look at whether the account exists, not at what it cost or holds.",
 [UP, PR+"delegate.rs", PR+"init_validator_fees_vault.rs", PR+"init_protocol_fees_vault.rs", PR+"whitelist_validator_for_program.rs"], [("rent computation in create_pda and resize_pda", UP)])
prop("M13", "Recorded balances stay covered",
 "From delegation to undelegation a delegated account always holds at least the lamports stored in its delegation record, and while a commit is pending the recorded balance and the pending state account's balance together cover the committed lamports. Every instruction preserves this.",
 IH, "every sequence of instructions and every balance", "Tests check balances after single fixed sequences.",
 [PR+"delegate.rs", PR+"commit_state.rs", PR+"finalize.rs"], [("record.lamports set from the account's balance, collateral taken at commit", PR)])
prop("M14", "Only the accounts that must pay lose lamports",
 "No successful instruction lowers the balance of an account that is not due to pay in it: the payer or authority when accounts are created or topped up, the validator when committing, the delegated and the pending accounts when finalizing, the vault claimed from or closed, a closed ephemeral balance, and on undelegation the closed accounts, the delegated account and the validator. In particular the fees vaults are debited only by claims and by closing.",
 IN, "every instruction, balance and account list", "Tests check only the balances they expect to change.",
 ALLP + [UP], [("lamport edits and system transfers of every handler", PR)])
# ---------------------------------------------------------------- interface
prop("E01", "Each instruction tag runs its own handler and nothing else",
 "For each of the 14 instructions, data starting with the tag that the client library emits for it runs exactly that instruction's handler, with the bytes after the 8-byte tag as its data and the given accounts. Data shorter than 8 bytes, an unknown first byte or another program id is rejected without running any handler, and the published tag values never change.",
 IN, "every instruction data and program id", "Tests send valid instructions only.",
 ["src/lib.rs", "src/discriminator.rs"], [("DlpDiscriminator::try_from and the dispatch match", "src/lib.rs")])
prop("E02", "Client-built instructions match what the handlers require",
 "For each instruction, the accounts that the public builder lists agree position by position with what the handler requires: the same number, the same derived addresses, a signer wherever the handler requires one, writable wherever the handler requires or modifies the account. The argument bytes the builder appends are of the type the handler decodes.",
 IN, "every argument value given to every builder", "Tests build instructions with a few fixed keys; a builder that is wrong only for some arguments passes.",
 ["src/instruction_builder/", PR], [("AccountMeta lists against account checks", "src/instruction_builder/")])
prop("E03", "Different kinds of derived accounts can never share an address",
 "The seed strings of any two kinds of program-derived account (delegation record, metadata, pending state, commit record, delegation buffer, undelegation buffer, protocol vault, validator vault, whitelist, ephemeral balance), or of one kind for two different keys or indices, are never equal, and the public address helpers use the same seeds and program as the handlers.",
 IN, "all keys and indices", "Tests derive addresses for a handful of keys.",
 ["src/pda.rs"], [("seed macros", "src/pda.rs")])
prop("E04", "Account and argument types keep one consistent wire layout",
 "Every argument and state type is written with all of its fields, in the order and with the types in which it is read back, and fixed-size state has no gaps between fields; the published field order, field types, and the space reserved on chain for fixed-size state stay exactly those of the current layout.",
 IN, "every value of every type", "One round-trip test for one type.",
 ["src/args/", "src/state/"], [("derived Borsh implementations, repr(C) Pod structs, size_with_discriminator", "src/state/")])
prop("E05", "Program errors keep distinct, stable codes",
 "Each program error converts to a custom program error carrying its own published number; no two errors share a number and the conversion never changes it.",
 IN, "every error value", "No test checks an error code.",
 ["src/error.rs"], [("DlpError discriminants and From impl", "src/error.rs")])
prop("E06", "Delegating an ephemeral balance delegates that balance and nothing else",
 "A successful delegation of an ephemeral balance assigns exactly the balance account derived from the signing key and index to the delegation program, and invokes the delegation program's delegate instruction for that account, with the payer, the system program as owner, the balance's own seeds, and otherwise the caller's arguments, signed with that balance's seeds.",
 IN, "every key, index and argument value, including caller-supplied seeds", "Tests use index 0 or 1 with empty seeds.",
 [PR+"delegate_ephemeral_balance.rs"], [("seed override, assign and delegate CPIs", PR+"delegate_ephemeral_balance.rs")])
prop("E07", "The program signs only for accounts whose seeds it verified",
 "Every time the program signs for a derived account in a cross-program call, the signing seeds and bump are those of the address the call acts on and that address was checked against the account presented. Accounts are created with the delegation program as owner, except ephemeral balances, which stay with the system program.",
 IN, "every account list", "Tests pass the right accounts.",
 [UP, PR+"undelegate.rs", PR+"close_ephemeral_balance.rs", PR+"delegate_ephemeral_balance.rs"], [("create_pda and invoke_signed seeds", UP)])
prop("F02", "An instruction changes only its own accounts",
 "A successful instruction changes the balance, data or owner only of the accounts it is meant to change: delegate the payer's balance, the account's data, the record and metadata; a commit the validator's balance, the metadata's content and the two pending accounts; finalize the validator's and vault's balances, the account's data and balance, the record's and metadata's content and the pending accounts; and likewise for the other instructions. Everything else passed to it is left as it was.",
 IN, "every account list and path that succeeds", "Tests never look at the accounts an instruction should leave alone.",
 ALLP, [("account edits of every handler", PR)])
prop("F01", "No failure inside an instruction is swallowed",
 "An instruction that reports success had no failing step: every cross-program call, account resize, data borrow, decoding, encoding and required account check that fails makes the instruction fail. The only exceptions are the documented no-ops: finalize with nothing pending and a commit with an outdated slot.",
 ["inputs", "fault_sequences"], "every step that can fail, in every instruction", "Tests see failures only at the end of a transaction.",
 ALLP + [UP, LO], [("error propagation with the ? operator", PR)])

# ---------------------------------------------------------------- not applicable
prop("X01", "Delegated accounts can eventually be undelegated",
 "Every delegated account can eventually be returned to its owner program: whatever has been committed, some sequence of valid instructions by a registered validator ends the delegation.",
 ["histories", "fault_sequences"], "every history of commits, finalizations and owner-program behaviour", "Liveness over unbounded histories and third-party programs.",
 [PR+"undelegate.rs"], [("undelegate instruction", PR+"undelegate.rs")],
 na="liveness that depends on the external owner program, validators and the runtime; no static argument over this source can bound it")
prop("X02", "Committed states are the true ephemeral states",
 "The data and lamports a validator commits are the ones the account really has in the ephemeral rollup at the committed slot.",
 ["histories"], "every validator behaviour", "The truth is outside the program.",
 [PR+"commit_state.rs"], [("TODO in process_commit_state_internal", PR+"commit_state.rs")],
 na="the program has no access to the rollup's state; nothing in this source decides it")
prop("X03", "Failed instructions leave no trace",
 "When an instruction fails at any point, no account is changed.",
 ["crash_points", "inputs"], "every failure point", "Needs the runtime's rollback at every failure point.",
 ["src/lib.rs"], [("Solana transaction atomicity", "runtime")],
 na="guaranteed by the Solana runtime's rollback, not by this source; handlers do write before later checks, so the source alone does not decide it")
prop("X04", "Handlers fit the compute and stack budget",
 "Every instruction that satisfies its preconditions completes within the compute, heap and stack limits of the deployed program, whatever the size of the account data and seeds.",
 IN, "every data size", "Tests run natively without these limits.",
 [PR], [("none", PR)],
 na="a quantitative bound on the SBF build's instruction counts; the SBF toolchain is not installed, and the cost depends on data sizes and runtime pricing")
prop("X05", "Delegated accounts stay rent-exempt through settlement",
 "No successful settlement leaves the delegated account, the fees vaults or the pending accounts with a balance between zero and the rent minimum of their data.",
 IN, "all balances and data lengths", "Depends on runtime quantities.",
 [PR+"finalize.rs"], [("runtime rent-state check", "runtime")],
 na="quantifies over actual balances against cluster rent parameters; the program does not check it (the runtime does), so there is no structural clause in this source")
prop("X06", "The on-curve test is exact",
 "The test that decides whether an address needs seed validation accepts exactly the keys that are points of the ed25519 curve.",
 IN, "all 2^256 addresses", "Tests use two keys.",
 [PR+"utils/curve.rs"], [("validate_edwards", PR+"utils/curve.rs")],
 na="a numerical fact about a third-party curve library (a syscall on chain); the part visible here, that the test is applied to the delegated key and guards seed validation, is covered by A07")

def lines():
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None))
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        yield json.dumps(d)
if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    open(os.path.join(root, "properties.jsonl"), "w").write("\n".join(lines()) + "\n")
    print(len(P), "properties")
