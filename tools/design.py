"""Writes DESIGN.md from the property list, the known findings and the seeded bugs, so that it stays in step with them."""
import json, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, NA

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# what the monitors of a property look at, beyond what its entry in tools/props.d says
DETAIL = {
    "P01": "Oracle: equality of decode(encode(x)) with x and of encodings of equal values; the generator (harness/gen) covers every variant, crosses the RLP length boundaries (0, 1, 55, 56, 255, 256, 65535, 65536 bytes) and fills every optional field both ways.",
    "P02": "Oracle: the panic hook (all threads) around each decode, and decode-encode-decode stability of what was accepted. Valid encodings are corrupted at byte level (flip, cut, insert, splice) and at RLP-item level (drop, repeat, nest, resize, change announced lengths).",
    "P03": "Oracle: an own encoder of EIP-155/2718/2930/1559 and k256 signing; the node's raw form, hash and recovered sender must be the oracle's, and each changed field, chain id, or signature part must change or refuse the sender.",
    "P04": "Oracle: hashes recomputed with an own RLP writer, roots with the own Merkle-Patricia trie of harness/vlib, bloom recomputed from the logs.",
    "P05": "Oracle: own Merkle-Patricia trie; insertion orders permuted; each proof checked against the leaf it is for and against others.",
    "P06": "Oracle: an own statement of the rule (bitmap, weight above two thirds, height, round, digest, state root) with votes signed by blst directly; each accepted proof is then changed in one place. Noise in bitmap bits that name nobody is malleable by design and is exempt.",
    "P07": "Oracle: own hex, EIP-55 and quantity printers; strings with one defect must be refused without panic.",
    "P08": "Oracle: the node's own types and codec: every value goes through both libraries.",
    "P09": "Oracle: scripts assembled from RISC-V instructions by the harness, whose result, arguments seen and exit are known; interpreter arguments are compared with those given, also empty ones.",
    "P10": "Oracle: the values a file was written from, and an own model of hardfork activation. Configurations have every setting there is, each optional one given or not, in any order, with one thing wrong in half of them; private keys come as text and as files, well-formed, malformed or outside the curve's order, through the real command line parser.",
    "P20": "Oracle: a second execution on a fresh node, on a node with other caches and restarts, and the receipts and roots stored by the first; any difference in root, receipt, gas or log is a violation.",
    "P21": "Oracle: an own account model of transfers, fees, fee sharing, creation, self-destruction and system contracts; after every block the world state is compared account by account, the total supply is conserved up to known findings, and no account outside the model changes.",
    "P22": "Oracle: read_call/exec comparison: the answer of a call equals the receipt of the transaction with the same content executed next; the state root and the nonce are unchanged by calls.",
    "P23": "Oracle: own implementations (modexp with big integers, sha256, ripemd, bn254 through an own affine implementation, ecrecover through k256, and header/cell/verifier precompiles over the recorded headers), with EIP gas formulas.",
    "P24": "Oracle: a contract that stores every environment opcode; compared with the block executed.",
    "P25": "Oracle: own model of epochs, versions, propose counts, and contract configuration, compared with what the metadata contract answers at every height and after restarts.",
    "P26": "Oracle: a map of the headers and cells submitted and consumed, compared through the image-cell and light-client contracts after each block.",
    "P27": "Oracle: a map of keys written per root; every root must read back its own map through cold and warm caches, from other threads, and after crash images of the database.",
    "P28": "Oracle: a model of the stored blocks, receipts, transactions, proofs and code; reads happen from other threads during writes; crash images are cut at every recorded database write.",
    "P40": "Oracle: a model of the pool (nonces, prices, queue, capacity, failure reasons) run beside the real pool over inserts, packages, flushes, restarts.",
    "P41": "Oracle: one field or signature of a valid transaction broken at a time; the network is observed for what is passed on.",
    "P42": "Oracle: recorded calls of concurrent threads checked offline: every accepted transaction is packaged once until flushed, none after it, no duplicates, capacity respected. Delays are injected at await points of the adapter.",
    "P50": "Oracle: a model of the files; writes are cut by RLIMIT_FSIZE of a child or by truncating the file afterwards.",
    "P51": "Oracle: blst used directly.",
    "P52": "Oracle: the table of forgeries: each names the rule it breaks and so the verdict to expect.",
    "P54": "Oracle: the chain kept by the harness: after every call every stored block, receipt, transaction and proof of the late node is compared with it.",
    "P55": "Oracle: offline checkers over all nodes' stored histories (agreement, exactly-once, nonce order, linkage) and an online one for progress. Every node has its own runtime, clock ticks and database; a crash drops the runtime and keeps the crash image of the database and the log directory.",
    "P56": "Oracle: panic hook on all threads, liveness of the engine, service of RPC requests, agreement. A panic on any thread is a violation as core-run ends the node on it.",
    "P57": "Oracle: wholeness of the crash image at a write chosen by the generator (during commits and during starts), and comparison of account state at each block with what was seen before.",
    "P58": "Oracle: a model of what each node is set up for and of the list of announcements on the chain (harness/h-cons/src/fork.rs). Every proposal's extra data, every vote on it and on made up, doubled or undecodable announcements, the flags in force after each commit and restart, the list kept by the metadata contract, and the announcement kept in memory and in the database are compared with it.",
    "P60": "Oracle: the log of every handler of every node and every hand-made peer, matched offline with what was sent: exactly one delivery per addressee, none elsewhere, same bytes, true sender. Frames of hand-made peers are built by the harness's own protobuf and length-delimited snappy writers. A panic on any thread is a violation.",
    "P61": "Oracle: each request carries a serial number the handler logs and answers with a function of; each call's result must be that function, or an error the handler or the timing justifies. Forged answers enumerate the call ids around those in use.",
    "P62": "Oracle: a model of addresses (last try, last success, attempts), bans by network prefix and end, and capacity; every operation's result and the store's whole content are compared. Files are torn at random bytes or replaced by noise.",
    "P63": "Oracle: counts of live connections per direction and role seen by the hand-made peers, against the limits configured, the bans given and the validators set.",
    "P64": "Oracle: for each of 24 behaviours whether it must be kept and by when it must be gone; connection counts of all nodes for gathering; a good peer looks on while others send noise, and must still be served after it.",
    "P70": "Oracle: harness/h-api renders each block, transaction, receipt and log itself from what was signed and executed (own RLP, keccak, blooms, created addresses) and compares every field of the answer. The header's logsBloom is a known finding.",
    "P71": "Oracle: the leaves of the state and storage trees of every block, enumerated when it was committed; proofs are walked by an own verifier from the block's state root.",
    "P72": "Oracle: an own matching of addresses and topics over the executed logs; the filter's history says what has been given. Expiry is judged only well inside and well outside of the time-out.",
    "P73": "Programs run by a contract that executes its calldata, so each call can be anything. What a creation returns is not judged (the virtual machine keeps the code to itself).",
    "P74": "Oracle: the rewards are recomputed from the executed transactions, sorted by the fee above the base fee and weighted by gas.",
    "P75": "Oracle: the panic hook and the probe. 52 documented methods; parameters valid, of the wrong kind, out of range, missing, surplus. Clients hang up by aborting their request while up to 20 of them are served.",
    "P76": "Oracle: every message on every socket is matched with a subscription and its position; a stuck reader's buffer may overflow, in which case only order is judged for it.",
    "P77": "Oracle: the set of pending transactions per sender, after every answer and every block.",
    "P11": "Each set-up is a process of its own (the logger is a global), with 1-6 threads, up to three restarts on the same directory, some killed by SIGKILL from within. Every record carries an id, and the thread notes the ids it has logged in a separate file afterwards: noted ids must be found exactly once where the settings put them, others at most once. A line torn by a kill is tolerated once per kill.",
    "P12": "Three HTTP servers on the loopback interface keep every request; faults: errors, wrong shapes, no JSON, half answers, resets, delays. Signatures of completed transactions are recovered with an own implementation over the CKB message layout.",
    "P13": "The twins (wrapped and not) run the same random script; spans arrive through the real tracer's channel. Spans have to end inside out. Trees are also cut short, dropped after a number of polls or by a panic in the n-th call: every call that began has to have its span ended, and the panic has to reach the caller as it was. The time a meter notes has to lie between what the body and the caller measured.",
    "P15": "Trees of 1 to 70 leaves are built by the harness with blake2b; proofs for random choices of leaves are verified as they are and after one of 12 changes. The contract form is written by an own encoder and compared both ways; mutated payloads must not panic in the repository's code.",
    "P14": "Oracle: an own parser and comparison written from semver.org; near misses of the grammar are a quarter of the texts.",
    "P80": "The specification is generated as data, written as TOML, and the database is opened by the harness through the repository's storage and read with an own trie walker. Spoilt inputs are of 30 kinds. Kills: at the n-th database write (the stand-in kills the process before it) or after a random time.",
    "P81": "Four nodes at a time live through up to 6 (12) phases. While a node runs its answers (heads, blocks, receipts, balances) are kept; after it has ended, however it did, the database has to hold them, every block has to chain, and roots, signatures and nonces have to verify. A node that stays up without a new block for long while nothing holds it up is reported.",
    "P82": "Between two runs of a node a hardfork command is given; the model holds the proposal waiting and the list recorded. A block proposed before a stop comes back from the consensus WAL, without or with an earlier proposal; the model allows that for the first block only.",
    "P83": "Public keys, addresses and peer ids are recomputed with own secp256k1 (k256) and hash code, BLS keys with the BLS library; a node is run on generated keys and its block's proposer and proof are compared.",
}


def main():
    w = open(f"{ROOT}/DESIGN.md", "w")
    p = lambda s="": print(s, file=w)
    here = os.path.dirname(os.path.abspath(__file__))
    p(open(f"{here}/design_head.md").read().rstrip())
    p()
    p("## The properties, one by one")
    p()
    p("Cost is the time budget of the workload (quick / thorough) in seconds, build not counted. The full statements are in properties.jsonl.")
    for e in P:
        p()
        p(f"### {e['id']} {e['title']}")
        p()
        p(f"Anchors: {', '.join(e['files'])}. Harness: harness/{e['crate']}.")
        p()
        p(f"- Quantifies over: {e['quant']}. Beyond the tests: {e['why']}.")
        p(f"- Decided by: {e['technique']}.")
        p(f"- Workload and what counts as distinct: {e['rule']}.")
        if e["id"] in DETAIL:
            p(f"- {DETAIL[e['id']]}")
        p(f"- Bounds and trust: {e['note']}{''.join('; ' + a for a in e['assume'])}. Cost: {e['q']} / {e['t']} s.")
    p()
    p("## Not applicable")
    p()
    for a, b in NA:
        p(f"- {a}: {b}")
    if not NA:
        p("None: every property listed is decided by running the code under monitors.")
    p()
    p("## Defects found in axonweb3/axon")
    p()
    p("Repaired, each in a `fix:` commit of its own (a fixed entry suppresses nothing):")
    p()
    k = json.load(open(f"{ROOT}/known_findings.json"))
    for e in k:
        if e["status"] == "fixed":
            p(f"- {e['property']}: {e['what']} ({e.get('commit') or e['key'].split()[2]})")
    p()
    p("Recorded, not repaired (known_findings.json); the checks report them as KNOWN-FINDING under exactly these keys and treat any other deviation as a violation:")
    p()
    for e in k:
        if e["status"] == "known":
            p(f"- {e['property']} `{e['key']}`: {e['what']}")
    p()
    p("## Planted bugs, and which checks catch them")
    p()
    caught = json.load(open(f"{here}/caught.json"))
    p("| bug | property | needs | caught by |")
    p("|---|---|---|---|")
    for d in sorted(os.listdir(f"{ROOT}/seeded")):
        m = json.load(open(f"{ROOT}/seeded/{d}/meta.json"))
        p(f"| {d} | {m['property']} | {m['needs']} | {caught.get(d, 'not run yet')} |")
    p()
    p(open(f"{here}/design_tail.md").read().rstrip())


main()
