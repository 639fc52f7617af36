import json,subprocess
def h(s):
    return subprocess.check_output(["git","-C","/repo","log","--format=%h","--grep",s,"-n","1"],text=True).strip()
F=[]
def fixed(prop,commit,what): F.append({"property":prop,"status":"fixed","commit":commit,"record":f"fixed: property={prop} {commit} {what}"})
fixed("F01","1308cb2","a send of an SPL token whose proof is invalid, finalized with a token account for another token, sent lamports or tokens beyond the reserved rent to the fee collector")
fixed("F03","1308cb2","see F01: payout of a rejected token send")
fixed("F03","44fff0e","the optional fee of a solana-pay send was paid by the pool and a second time from the recipient's share: the relayer's direct transfer counted the full amount")
fixed("O01","0699273","amount + fee of a request wraps around u64: the total amount signal is small while the payout is huge; addition of the token account's rent wraps too")
fixed("F01","0699273","a request whose amount + fee wraps around drains the pool")
fixed("O01","d4f9088","the basis point fee of large amounts wraps around u64")
fixed("M02","1dd5e9c","the stored root [0; 32] of a nullifier account of a tree that is not in use yet was accepted as root of a closed tree")
fixed("V04","6bd02e5","two solana-pay sends in one transaction were satisfied by a single direct transfer")
fixed("V04","a31b9cb","finalization companions of another fee payer's request counted for one's own request")
fixed("M02","60ade69","with batching rate > 0 the root history slot was derived from the leaf index: recent roots were overwritten or never valid")
fixed("C01","c40543c","InitCommitmentHash with insertion_can_fail dropped the dequeued commitments when the insertion failed")
fixed("C01","fadb013","the metadata position was not reset with a new tree: all deposits after the first tree fail")
fixed("M01","f599ea5","a tree was closed although the last batch would still fit, or could never be closed")
fixed("N02","e039946","a nullifier inserted directly below the maximum of a full segment was lost and could be spent again")
fixed("N01","e039946","see N02: a spent nullifier could be spent again")
fixed("K01","b247dc7","the second version of a verifying key could never take effect: closing the replaced data account always failed")
fixed("V01","010ee83","a valid proof for inputs whose combination with the key's points vanishes was rejected")
fixed("V01","b8bfe4e","proofs with coordinates outside the base field, or coordinates flagged as the point at infinity, were accepted as if they were the reduced points")
fixed("W01",h("keep the basic network account within"),"Init could never succeed: the basic network account was larger than the 10 KiB an instruction can allocate, so no warden could ever register")
fixed("W01",h("store the key of a registered warden operator"),"the operator account did not record the operator's key")
fixed("W02",h("persist attested warden metadata"),"the result of a metadata attestation (asn, validity, timezone, region, proxy) was computed and dropped")
fixed("W02",h("only update the region of an actual network member"),"attesting warden 0 could write the region of a member slot that is not in use yet")
fixed("W02",h("wardens cannot appoint themselves"),"a warden could register with the attestation feature set and so appoint itself attester")
fixed("W03",h("store the second quote half under"),"the second half of a quote was stored under the warden's identity instead of its member position (another member's quote, or out of bounds)")
fixed("W04",h("count warden activity"),"activity was never counted: the counter worked on a copy, and with one-based days the last day of a leap year was out of bounds")
fixed("W04",h("track the relaying warden of transfer"),"for transfer finalizations the tracked key was that of the recipient, not of the relaying warden")
fixed("W04",h("infallible tracking does not abort"),"tracking with can_fail aborted the transaction after an instruction without data or accounts")
fixed("S01",h("find also finds values"),"find/contains never found values of one byte")
fixed("S01",h("declared size of a serialized G2"),"the declared size of a G2 point (65) was not the size of its encoding (129)")
fixed("O01",h("refuse fee schedules whose fees exceed"),"InitNewFeeVersion accepted fee schedules whose fees wrap around u64")
fixed("L01",h("a send that relies on another request"),"a request that relies on another request's duplicate account (skip_nullifier_pda) could not be finalized once that other request was rejected and its account closed")
fixed("L01",h("accounts can be opened at addresses"),"lamports sent to the derived address of a request's account (e.g. the duplicate account of certain nullifiers) made it impossible to ever start that request")
fixed("L01",h("create the recipient's associated token account also"),"lamports sent to the recipient's token account address blocked the finalization of a send that has to create that account")
fixed("W05",h("open the target map of a proposal also"),"a proposal whose target map address was sent lamports before was accepted without the map being opened")
json.dump({"findings":F},open("/verif/known_findings.json","w"),indent=1)
