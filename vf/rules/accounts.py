"""Which accounts an instruction accepts, and who has to sign."""
from .lib import *

VA = "VerificationAccount"
VK = "VKeyAccount"
NU = "NullifierAccount"
BH = "BaseCommitmentHashingAccount"


def ARG(i):
    return lambda H: u32le(H.arg(i))


def ITEM(i, k):
    return lambda H: u32le(N("idx", H.arg(i), Int(k)))


def PK(i):
    return lambda H: bytes_of(key(A(i)))


def TREE0(acct):
    def f(H):
        v = H.W.view(VA, A(acct))
        return u32le(N("idx", H.W.get(v, "tree_indices"), Int(0)))
    return f


# account position -> (type, owner key, index): the address each instruction has to insist on
ELUSIV = {
    "store_base_commitment": {4: ("PoolAccount",), 6: ("FeeCollectorAccount",), 10: ("GovernorAccount",), 11: ("StorageAccount",),
                              12: (BH, None, ARG(0)), 13: ("BaseCommitmentBufferAccount",)},
    "compute_base_commitment_hash": {0: (BH, None, ARG(0))},
    "finalize_base_commitment_hash": {1: ("PoolAccount",), 2: ("FeeAccount", None, ARG(1)), 3: (BH, None, ARG(0)),
                                      4: ("CommitmentQueueAccount",), 5: ("MetadataQueueAccount",)},
    "init_commitment_hash_setup": {0: ("CommitmentHashingAccount",), 1: ("StorageAccount",)},
    "init_commitment_hash": {0: ("CommitmentQueueAccount",), 1: ("MetadataQueueAccount",), 2: ("CommitmentHashingAccount",), 3: ("MetadataAccount",)},
    "compute_commitment_hash": {1: ("FeeAccount", None, ARG(0)), 2: ("PoolAccount",), 3: ("CommitmentHashingAccount",)},
    "finalize_commitment_hash": {0: ("CommitmentHashingAccount",), 1: ("StorageAccount",)},
    "init_verification": {1: (VA, PK(0), ARG(0)), 2: (VK, None, ARG(1)), 6: ("StorageAccount",), 7: ("CommitmentBufferAccount",),
                          8: (NU, None, ITEM(2, 0)), 9: (NU, None, ITEM(2, 1))},
    "init_verification_transfer_fee": {2: ("PoolAccount",), 4: ("FeeCollectorAccount",), 8: ("GovernorAccount",), 9: (VA, PK(0), ARG(0))},
    "init_verification_proof": {1: (VA, PK(0), ARG(0))},
    "compute_verification": {1: (VA, PK(0), ARG(0)), 2: (VK, None, ARG(1))},
    "finalize_verification_send": {4: ("CommitmentQueueAccount",), 5: (VA, PK(3), ARG(0)), 6: ("StorageAccount",), 7: ("CommitmentBufferAccount",)},
    "finalize_verification_insert_nullifier": {1: (VA, PK(0), ARG(0)), 2: (NU, None, TREE0(1))},
    "finalize_verification_transfer_lamports": {2: ("PoolAccount",), 3: ("FeeCollectorAccount",), 5: ("CommitmentQueueAccount",),
                                                6: ("MetadataQueueAccount",), 7: (VA, PK(0), ARG(0))},
    "finalize_verification_transfer_token": {4: ("PoolAccount",), 6: ("FeeCollectorAccount",), 9: ("CommitmentQueueAccount",),
                                             10: ("MetadataQueueAccount",), 11: (VA, PK(0), ARG(0))},
    "create_vkey_account": {1: (VK, None, ARG(0))},
    "create_new_vkey_version": {1: (VK, None, ARG(0))},
    "update_vkey_version": {1: (VK, None, ARG(0))},
    "set_vkey_data": {1: (VK, None, ARG(0))},
    "freeze_vkey": {1: (VK, None, ARG(0))},
    "change_vkey_authority": {1: (VK, None, ARG(0))},
    "reset_active_merkle_tree": {0: ("StorageAccount",), 1: ("CommitmentQueueAccount",), 2: (NU, None, ARG(0)), 3: ("CommitmentHashingAccount",)},
    "archive_closed_merkle_tree": {},
    "open_single_instance_accounts": {1: ("PoolAccount",), 2: ("FeeCollectorAccount",), 3: ("CommitmentHashingAccount",), 4: ("CommitmentQueueAccount",),
                                      5: ("StorageAccount",), 6: ("BaseCommitmentBufferAccount",)},
    "open_nullifier_account": {1: (NU, None, ARG(0))},
    "enable_storage_child_account": {0: ("StorageAccount",)},
    "enable_nullifier_child_account": {0: (NU, None, ARG(0))},
    "enable_metadata_child_account": {0: ("MetadataAccount",)},
    "setup_governor_account": {1: ("GovernorAccount",)},
    "upgrade_governor_state": {},
    "init_new_fee_version": {1: ("GovernorAccount",), 2: ("FeeAccount", None, ARG(0))},
    "close_program_account": {},
    "create_new_accounts_v1": {1: ("CommitmentBufferAccount",), 2: ("MetadataQueueAccount",), 3: ("MetadataAccount",), 4: ("StorageAccount",),
                               5: ("CommitmentHashingAccount",), 6: ("CommitmentQueueAccount",)},
    "nop": {},
}
UNIMPLEMENTED = {"archive_closed_merkle_tree", "upgrade_governor_state", "complete_apa_genesis_network"}

BW = "BasicWardenAccount"
BM = "BasicWardenMapAccount"


def KEYARG(i, path=None):
    return lambda H: bytes_of(fld(H.arg(i), path) if path else H.arg(i))


def MAPID(acct):
    def f(H):
        return u32le(H.W.get(H.W.view(BM, A(acct)), "warden_id"))
    return f


WARDEN = {
    "init": {1: ("WardensAccount",), 2: ("BasicWardenNetworkAccount",), 3: ("ApaWardenNetworkAccount",), 4: ("ApaProposalsAccount",)},
    "register_basic_warden": {1: (BW, None, ARG(0)), 2: (BM, PK(0), None), 3: ("WardensAccount",), 4: ("BasicWardenNetworkAccount",)},
    "update_basic_warden_state": {1: (BW, None, ARG(0))},
    "update_basic_warden_lut": {1: (BW, None, ARG(0))},
    "start_apa_genesis_warden_application": {1: (BM, PK(0), None), 2: ("ApaWardenAccount", None, MAPID(1)), 3: ("ApaWardenNetworkAccount",)},
    "complete_apa_genesis_warden_application": {1: (BM, PK(0), None), 2: ("ApaWardenNetworkAccount",)},
    "confirm_apa_genesis_network": {1: ("ApaWardenAccount", None, ARG(0)), 2: ("ApaWardenNetworkAccount",)},
    "complete_apa_genesis_network": {},
    "register_warden_operator": {1: ("WardenOperatorAccount", PK(0), None)},
    "confirm_basic_warden_operation": {1: (BW, None, ARG(0))},
    "open_basic_warden_stats_account": {2: ("BasicWardenStatsAccount", PK(0), ARG(0))},
    "track_basic_warden_stats": {1: ("BasicWardenStatsAccount", PK(0), ARG(0))},
    "propose_apa_proposal": {1: ("ApaProposalAccount", None, ARG(0)), 2: ("ApaProposalsAccount",), 3: ("ApaTargetMapAccount", KEYARG(1, "target"), None)},
    "add_metadata_attester": {1: ("BasicWardenAttesterMapAccount", KEYARG(1), None), 2: (BW, None, ARG(0))},
    "revoke_metadata_attester": {2: ("BasicWardenAttesterMapAccount", PK(1), None), 3: (BW, None, ARG(0))},
    "attest_basic_warden_metadata": {1: (BW, None, ARG(0)), 2: (BW, None, ARG(1)), 3: ("BasicWardenNetworkAccount",)},
    "close_program_account": {},
}

SIGN_ELUSIV = {
    "store_base_commitment": (0, 2), "compute_commitment_hash": (0,), "init_verification": (0,), "init_verification_transfer_fee": (0,),
    "init_verification_proof": (0,), "finalize_verification_transfer_lamports": (0,), "finalize_verification_transfer_token": (0,),
    "create_vkey_account": (0,), "create_new_vkey_version": (0,), "update_vkey_version": (0,), "set_vkey_data": (0,), "freeze_vkey": (0,),
    "change_vkey_authority": (0,), "open_single_instance_accounts": (0,), "open_nullifier_account": (0,), "setup_governor_account": (0,),
    "init_new_fee_version": (0,), "close_program_account": (0,), "create_new_accounts_v1": (0,),
}
SIGN_WARDEN = {
    "init": (0,), "register_basic_warden": (0,), "update_basic_warden_state": (0,), "update_basic_warden_lut": (0,),
    "start_apa_genesis_warden_application": (0,), "complete_apa_genesis_warden_application": (0,), "confirm_apa_genesis_network": (0,),
    "register_warden_operator": (0,), "confirm_basic_warden_operation": (0,), "open_basic_warden_stats_account": (1,),
    "propose_apa_proposal": (0,), "add_metadata_attester": (0,), "revoke_metadata_attester": (0,), "attest_basic_warden_metadata": (0,),
    "close_program_account": (0,),
}


def acct_index(n):
    if n.op == "idx" and n.a[0] is ACCOUNTS and n.a[1].op == "int":
        return n.a[1].a[0]
    return None


def bind_job(W, h, row):
    def job(R):
        H = W.handler(h)
        R.count("handlers")
        R.count("exits", len(H.ok) + len(H.err))
        if h in UNIMPLEMENTED:
            R.need(not H.ok, "unimplemented", h, "an unimplemented instruction has no successful exit", H.loc())
            return
        R.need(bool(H.ok), "reachable", h, "the instruction has a successful exit", H.loc())
        for i, spec in row.items():
            T = spec[0]
            pub = spec[1](H) if len(spec) > 1 and spec[1] else None
            off = spec[2](H) if len(spec) > 2 and spec[2] else None
            for p in H.ok:
                R.count("bindings")
                R.need(derived(W, p, A(i), T, pub, off), "address", h, "account %d is the %s derived from the named owner and index" % (i, T), H.loc(), p.describe())
        for p in H.ok:
            for v in p.views():
                T = v.a[0].split("::")[-1]
                i = acct_index(v.a[1])
                R.count("views")
                R.need(i is not None and i in row and row[i][0] == T, "decoded", h, "data decoded as %s comes from an account whose address is checked (position %s)" % (T, i), H.loc(), show(v))
            for e, ls in p.flat():
                if e.a[0] in ("set", "write") or (e.a[0] == "call"):
                    for x in walk(e):
                        if x.op == "view":
                            i = acct_index(x.a[1])
                            R.need(i is not None and i in row and row[i][0] == x.a[0].split("::")[-1], "modified", h, "only accounts at checked addresses are modified", H.loc(), show(x))
    return job


def bindings(R, W, table):
    names = W.handler_names()
    for h in names:
        R.need(h in table, "coverage", h, "every instruction has an account table", "", "new instruction without a table")
    for h in table:
        R.need(h in names, "coverage", h, "the tabled instruction exists")
    parallel(R, [(h, bind_job(W, h, table[h])) for h in sorted(table, key=lambda h: -len(table[h])) if h in names])


@prop("A01", ("elusiv",), "on every successful exit of every instruction entry point, each decoded/modified account position carries the equality (address == derived address of its type, owner key and index)")
def a01(R, W):
    """Path-sensitive dataflow over the MIR of every instruction entry point of the payment program: for each successful exit, the branch facts must contain the equality between the account's address and the address derived from the type's seed, the owner key and the index named by the instruction."""
    bindings(R, W, ELUSIV)
    R.floor("bindings", 60)
    R.floor("handlers", 33)


@prop("A02", ("warden",), "as A01, for the warden network program")
def a02(R, W):
    """As A01 for the warden-network program: path-sensitive dataflow over MIR; each account position decoded or modified on a successful exit must carry the derived-address equality."""
    bindings(R, W, WARDEN)
    R.floor("bindings", 28)


def sign_job(W, h, idx):
    def job(R):
        H = W.handler(h)
        R.count("handlers")
        if h in UNIMPLEMENTED:
            return
        for p in H.ok:
            for i in idx:
                R.count("signers")
                R.need(p.holds(signer(A(i))), "signature", h, "account %d has signed on every successful exit" % i, H.loc(), p.describe())
    return job


@prop("A03", ("elusiv", "warden"), "on every successful exit of the instructions listed, the is_signer flag of the acting account is a path fact")
def a03(R, W, WW):
    """Path-sensitive dataflow over MIR: every successful exit of an instruction that spends from, registers, or acts for an account carries the fact that this account signed."""
    jobs = []
    for (w, t) in ((W, SIGN_ELUSIV), (WW, SIGN_WARDEN)):
        names = w.handler_names()
        for h, idx in t.items():
            if h in names:
                jobs.append((h, sign_job(w, h, idx)))
            else:
                R.need(False, "coverage", h, "the tabled instruction exists")
    parallel(R, jobs)
    R.floor("handlers", 33)
