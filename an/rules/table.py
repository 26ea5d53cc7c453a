"""Property -> rule function."""
from rules import meta, announce, auth, tokens, log, conc, life, ops, queries, uploads, index, codec, tool

TRUST = ['the MIR produced by the installed nightly compiler agrees with what the pinned toolchain compiles',
         'the summaries of std / ic-cdk / stable-structures calls in an/models.py are right; other external calls are opaque and only touch the cells passed to them',
         'tests, integration tests and the storage / archive canisters outside this repository are not analysed']

RULES = {
    'C01': ('management methods need their permission', auth.c01,
            'Product of the exploded control-flow graph of every management method with a permission monitor: each state write, inter-canister call and data-carrying reply must be dominated by a successful test that the caller holds the permission of that method; every other update method must be a token-holder method or have no effects.', TRUST),
    'C10': ('management updates are mutually exclusive', auth.c10,
            'Typestate of the management guard over every path of every management update: taken only when none is taken, held at each effect and await, released on every return.', TRUST),
    'C30': ('permission map changes', auth.c30,
            'Every write to the permission map in every exported method: only grant / revoke, keyed by the principal of the request, adding / removing exactly the permission of the request.', TRUST),
    'C02': ('tokens move only on the owner\'s authority', tokens.c02,
            'Every write to the token table in every exported method is found; each one that changes or removes an owner must, on every path, be entailed by the branch conditions: caller owns the token, or (transfer_from) holds an unexpired approval keyed by the token or by its current owner; new owner and named owner are those of the same request.', TRUST),
    'C03': ('approvals change only on the owner\'s authority', tokens.c03,
            'Every write to the approval tables in every exported method: grants and revocations entail that the caller owns the token / keys the collection entry and store exactly the requested spender and expiry; all other removals concern expired entries, a token changing hands, or an account without tokens.', TRUST),
    'C43': ('the anonymous principal gets nothing', tokens.c43,
        'Every transfer of a token and every granted approval in every exported method except mint: the condition known on every path to it must entail that the owner field of the new holder (the spender) differs from the anonymous principal, whatever its subaccount.', TRUST),
    'C07': ('fresh token ids within the supply cap', tokens.c07,
            'Data-flow of the id counter: stored ids are counter + position in the batch, the counter advances by the batch length on the same path, nothing else writes it, and log and table writes are dominated by the supply-cap test for the whole batch.', TRUST),
    'C08': ('owner index agrees with the token table', tokens.c08,
            'Pairing analysis over every path and loop iteration of every update method: an owner change is accompanied by listing under the new and unlisting under the old owner, and the index changes in no other way.', TRUST),
    'C09': ('approvals end with the ownership', tokens.c09,
            'Pairing analysis: every path that changes or removes the owner of an existing token also drops the approvals of that token.', TRUST),
    'C04': ('state changes only after their block is logged', log.c04,
            'For every ledger-state write in every token method, a must-analysis over all paths and loop iterations requires a successful append of a block about the same token / account; no other method writes ledger state.', TRUST),
    'C05': ('blocks state what happened', log.c05,
            'Every block construction reaching the log is compared, field by field and under the branch conditions of its path, with the request and the state it describes; the block of a metadata update carries every previous and every new entry.', TRUST),
    'C06': ('a logged block is always applied', log.c06,
            'Pairing analysis: on every path a successful append is followed by the change it records before the next element or the reply; mint must trap or apply the whole batch.', TRUST),
    'C27': ('token metadata is what was requested', meta.c27,
            'Every write to the token metadata in every exported method: only mint (for the new id, exactly the entries of the request that gets this id, every request) and update_nft_metadata (previous entries removed, exactly the requested ones stored); provenance of the previous and new metadata of the update block; no entry is skipped in any loop on the way.', TRUST),
    'C11': ('no conflicting access to shared state', conc.c11,
            'Typestate of every RefCell / thread-local cell over every path of every exported method and timer job of both canisters: no conflicting borrow while one is active, none held across an await.', TRUST),
    'C12': ('token operations are atomic', conc.c12,
            'Every function reachable from a token operation is enumerated; none may contain a suspension point.', TRUST),
    'C13': ('state survives an upgrade', life.c13,
            'The value serialized by pre_upgrade and the value restored by post_upgrade are compared position by position on every path; field tables of every persisted type and the stable memory layout are compared between writer and reader.', TRUST),
    'C14': ('service resumes after install and upgrade', life.c14,
            'Must-analysis over every path of init and post_upgrade: each periodic job (identified by the effects of the function handed to the timer) is scheduled, guards are cleared, every stored redirection is certified again.', TRUST),
    'C15': ('collection settings', life.c15,
            'Data-flow from init / update arguments to the stored settings and from there to the replies of the setting queries, field by field; no other method writes a setting.', TRUST),
    'C40': ('certified HTTP responses', life.c40,
            'Provenance of the path, witness and certificate of every certified response against the paths registered on every path of init and post_upgrade; typestate: the certified data is reset after every change of the tree.', TRUST),
    'C17': ('memo and creation time', ops.c17,
            'Every append of a block for a request that carries a memo or a creation time must, on every path, be dominated by the comparison of that memo with max_memo_size and of that time with permitted_drift / tx_window; the default is used only on paths where the setting is absent.', TRUST),
    'C18': ('limits on batches, approvals and rate', ops.c18,
            'Every append of a holder operation must be dominated by taking a slot in the rate window of its token, by the approvals limit, and lie in a loop over the requests that stops at the batch limit.', TRUST),
    'C41': ('replies tell what happened', ops.c41,
            'Typestate per request over every path: exactly one answer per request in request order; Ok only with the index of the block appended for that request; an error only when nothing was appended or changed.', TRUST),
    'C32': ('atomic batches are all or nothing', ops.c32,
            'Typestate of the batch on every path on which the atomic setting is not known to be off: no reply after one request was answered Ok and another with an error, none after a batch that may be longer than the limit.', TRUST),
    'C37': ('command line tool', tool.c37,
            'The whole program is explored from main with unknown arguments and replies: every request goes to the canister given, under the method and with the arguments of the chosen subcommand; success is reported only on paths that decoded an Ok answer of every request; permission names stand for their own permission; every metadata entry is minted.', TRUST),
    'C29': ('files uploaded by the tool', tool.c29,
            'Typestate of an upload over every path of the program: hash, size and chunks are all of the content read from the file given; every chunk of the content is sent once under its position and the announced path, and accepted, before the upload is finalized.', TRUST),
    'C16': ('query limits', queries.c16,
            'Every reply of a batch query is dominated by the comparison of the number of requests with max_query_batch_size; of a page query by take <= max_take_value, and each element of the page passes a loop cut at take / default_take_value.', TRUST),
    'C28': ('ownership queries', queries.c28,
            'Provenance of every element of the replies through all local lists: owner, balance, supply, metadata and listings are read from the tables under the key of the request at that position; null / zero only on paths where the table has no entry; no element of a listing is left out.', TRUST),
    'C31': ('pages', queries.c31,
            'Typestate of the list a page is cut from (sorted by a total order at the cut) and of the cursor (the cut starts right behind it).', TRUST),
    'C33': ('approval listings', queries.c33,
            'Field-by-field provenance of every reported approval from the stored approval of the requested token / account; no stored approval is left out.', TRUST),
    'C34': ('is_approved', queries.c34,
            'For every answer on every path: yes only when a branch established an unexpired token approval, an unexpired collection approval of the owner, or ownership; no only when all three were refuted.', TRUST),
    'C42': ('refusals have their reason', ops.c42,
            'For every refusal on every path, the branches taken for that request must establish the reason the error names (token missing, caller not entitled, time outside the window, limit reached, log error, guard taken, permission missing).', TRUST),
    'C19': ('upload records', uploads.c19,
            'Typestate of every upload record over every path: a record is created, moved or removed only in the state and after the storage canister answer that allow it, under its own path, keeping canister, start time and path.', TRUST),
    'C20': ('upload answers', uploads.c20,
            'For every answer on every path of the upload methods: Ok only after the confirmed and recorded change; an error only for the reason it names and without a change; the two queries report the recorded states.', TRUST),
    'C21': ('finalized files are served', uploads.c21,
            'On every path to the Ok answer of finalize_upload the same redirection (path of the upload to its storage canister) has been certified, published and stored.', TRUST),
    'C38': ('abandoned uploads', uploads.c38,
            'Per-iteration typestate of the timer job: each record is cancelled exactly if expired and unfinished, on its own canister, and forgotten exactly if the cancellation succeeded.', TRUST),
    'C39': ('storage canisters', uploads.c39,
            'Every path that creates a storage canister keeps it in the state; an upload is placed only where the size tests allow it.', TRUST),
    'C25': ('index entries', index.c25,
            'Every shape of block the ledger appends (kinds and fields taken from its append sites) is given to the indexing function of the index canister; on every path the entries it makes must be exactly one per distinct account, one for the kind and one for the token, each the stored list of that key with the id of the block added.', TRUST),
    'C24': ('index progress', index.c24,
            'Typestate of a run of the indexing job over every path and loop iteration, with every value read before a suspension marked stale: blocks in ascending order, each entered at most once and only at or behind a fresh progress, none behind a failed one, progress stored equal to the blocks entered; no other code moves it.', TRUST),
    'C26': ('index answers', index.c26,
            'Typestate over every path and loop iteration of get_blocks (and of every job that writes the cache): cache entries are blocks of an answer of the ledger or of the archive it named, under their own id; every requested id is answered from its own cache entry or fetched; no answered block is left out; filters are intersected; page cut and order as requested.', TRUST),
    'C36': ('administrative queries', auth.c36,
            'Path-sensitive comparison of every answer of has_permission, get_user_permissions and get_all_storage_subcanisters with what the branches taken say about the stored permission list and the storage canister manager.', TRUST),
    'C23': ('announced interfaces', announce.c23,
            'The block kinds found at the append sites and the exported method table are compared with the lists of constants the canister announces; provenance of every answer of the block log queries.', TRUST),
    'C35': ('consent messages', announce.c35,
            'Path-sensitive typestate of icrc21_canister_call_consent_message: on every path to an answer the decided method name, the type and bytes decoded, the text (name, action, number and identity of requests) and the language must belong together.', TRUST),
    'C22': ('stored values are read back', codec.c22,
            'Symbolic composition of every hand-written stored-value writer with its reader over all value shapes (every variant, absent / present options, empty / one / two entries, nested values by induction): each path of the writer followed by each path of the reader yields the value written, and neither has a failing path.', TRUST),
}
