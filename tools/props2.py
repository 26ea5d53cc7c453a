# second set of properties; exec'd by props.py
IX = 'src/index_icrc7/src/'
prop('C11', 'No conflicting access to shared state',
     'No call of an exported method or timer job of the two canisters traps because a shared state cell is borrowed while a conflicting borrow is active, and no shared cell stays borrowed while a call is suspended.',
     ['inputs', 'schedules'], 'every path of every exported method and the jobs it starts, in both canisters',
     'A double borrow shows only on the path that nests the two accesses, and a borrow held across an await only when another call arrives during it.',
     [S + 'state.rs', S + 'types/icrc3.rs', S + 'types/nft.rs', S + 'utils.rs', IX + 'state.rs', IX + 'index.rs', IX + 'cache.rs'],
     [('shared cells', S + 'state.rs, ' + IX + 'state.rs')],
     technique='typestate analysis of cell borrows over all paths')
prop('C12', 'Token operations are atomic',
     'Transferring, transferring on behalf, approving and revoking, minting and burning run to completion without another call being processed in between, so the conditions they check still hold when they change the state.',
     ['schedules', 'inputs'], 'every interleaving of calls: every function reachable from a token operation',
     'The tests run one call at a time; they cannot show the absence of a suspension point on a rare path.',
     [I7, I37, MG],
     [('synchronous operations', 'updates/icrc7.rs, updates/icrc37.rs, updates/management.rs')],
     technique='reachability of suspension points')
prop('C13', 'State survives an upgrade',
     'Upgrading either canister loses nothing and changes nothing: the runtime state (all settings, permissions, tokens, owner index, uploads, counters), the block log and the logs are saved and restored field by field, the stable maps (approvals, metadata, index, cache) stay in their own memory regions, and an upgrade that cannot save does not complete.',
     ['crash points', 'histories'], 'every path of pre_upgrade and post_upgrade of both canisters, every field of every persisted type',
     'A test upgrades one small state and looks at a few fields; a field that is no longer written, or a region that moved, shows only on data the test does not have.',
     [S + 'lifecycle/pre_upgrade.rs', S + 'lifecycle/post_upgrade.rs', S + 'memory.rs', S + 'state.rs', IX + 'lifecycle/', IX + 'memory.rs', IX + 'state.rs'],
     [('upgrade image', 'lifecycle/pre_upgrade.rs, lifecycle/post_upgrade.rs'), ('memory regions', 'memory.rs')],
     technique='writer / reader comparison of upgrade image, field tables and memory layout')
prop('C14', 'Service resumes after install and upgrade',
     'After installation and after every upgrade the periodic work of both canisters is scheduled (clean-up of abandoned uploads, archiving of blocks, indexing, cache clean-up), no management guard of an interrupted call blocks later management calls, and every stored media redirection is certified again.',
     ['crash points', 'histories'], 'every path of init and post_upgrade of both canisters',
     'Timers and certification are lost at every upgrade; the tests do not wait a day after one.',
     [S + 'lifecycle/', S + 'jobs/', S + 'state.rs', S + 'types/http.rs', IX + 'lifecycle/', IX + 'jobs.rs'],
     [('init', 'lifecycle/init.rs'), ('post_upgrade', 'lifecycle/post_upgrade.rs'), ('jobs', 'jobs/')],
     technique='must-analysis over all paths of init and post_upgrade')
prop('C15', 'Settings are stored and reported as given',
     'Every init argument of the collection takes effect under its own name; update_collection_metadata stores exactly the given settings and touches nothing else; no other method changes a setting; each setting query, and icrc7_collection_metadata, reports the setting of its own name.',
     ['inputs', 'histories'], 'every combination of given and omitted settings, every exported method',
     'Many settings have the same type; a swap of two of them compiles and shows only for the value nobody tested.',
     [S + 'lifecycle/init.rs', S + 'state.rs', MG, S + 'queries/icrc7.rs', S + 'queries/icrc37.rs'],
     [('init arguments', 'lifecycle/init.rs, state.rs Data::new'), ('update', 'updates/management.rs update_collection_metadata'), ('queries', 'queries/icrc7.rs')],
     technique='field-by-field data-flow from arguments to state to replies')
prop('C40', 'Certified HTTP responses',
     'Every response of http_request that carries a certificate carries the witness and expression path of the requested path, and that path is registered in the certification tree after installation and after every upgrade; whenever the tree changes, the certified data of the canister is set to its root before the call ends.',
     ['inputs', 'histories'], 'every path of http_request, init, post_upgrade and of every method that changes certified assets',
     'No test verifies a certificate.',
     [S + 'queries/http_request.rs', S + 'types/http.rs', S + 'lifecycle/', MG],
     [('responses', 'queries/http_request.rs'), ('tree', 'types/http.rs')],
     technique='provenance of certificate paths, typestate of the certification tree')
HOLDER = 'icrc7_transfer, icrc37_transfer_from, icrc37_approve_tokens / _collection, icrc37_revoke_*_approvals'
prop('C17', 'Memo size and creation time are checked',
     'No block is logged for a request whose memo is longer than max_memo_size, and none for a holder request whose creation time lies further in the future than permitted_drift or further in the past than the transaction window (plus drift). The documented default of a limit applies exactly when the collection does not set it.',
     ['inputs', 'schedules'], 'every path of every method that logs a block about a request, every combination of given and omitted settings',
     'Each of six methods repeats the checks; the tests send a few memos and times to some of them with the default settings.',
     [S + 'utils.rs', I7, I37, MG],
     [('memo', 'utils.rs check_memo'), ('creation time', 'updates/icrc7.rs transfer_nft, updates/icrc37.rs verify_approval_timing')],
     technique='dominance of appends by limit tests on all paths')
prop('C18', 'Batch, approval and rate limits of updates',
     'A call processes at most max_update_batch_size requests (revocations: max_revoke_approvals; minting included); an approval is granted only while the token or account has fewer than max_approvals_per_token_or_collection of them (or replaces one); per token (collection approvals: per collection) at most 5 holder operations enter the rate window, from which entries leave only by age (60 ms). The documented default applies exactly when the collection does not set the limit.',
     ['inputs', 'histories', 'schedules'], 'every append of ' + HOLDER + ' and mint; every write to the rate windows in any method',
     'The limits are per method; a method that forgets one passes every test that stays below it.',
     [S + 'guards.rs', I7, I37, MG],
     [('rate window', 'guards.rs guard_sliding_window'), ('batches', 'updates/icrc7.rs, updates/icrc37.rs'), ('approval maximum', 'updates/icrc37.rs')],
     technique='dominance of appends by limit tests and bounded request loops')
prop('C41', 'Replies tell what happened',
     'Each holder operation processes every request up to the configured batch limit and answers every processed request exactly once, in the order of the requests; it answers Ok exactly with the index of the block appended for that request, and with an error only if nothing was appended or changed for it. burn_nft, update_nft_metadata and mint answer Ok only after their block was appended (mint: with the first id of the batch) and with an error only if the ledger is unchanged.',
     ['inputs', 'histories'], 'every path and loop iteration of every token method',
     'A client that reads Err and retries, or Ok and ships, depends on every error branch; the tests reach a few of them.',
     [I7, I37, MG],
     [('answers', 'updates/icrc7.rs, updates/icrc37.rs, updates/management.rs')],
     technique='per-request typestate over all paths')
prop('C32', 'Atomic batches are all or nothing',
     'While icrc7:atomic_batch_transfers is set to true, a call of icrc7_transfer that completes has executed either every transfer of its batch or none: it never replies after one transfer was executed and another failed or was left out behind the batch limit.',
     ['inputs', 'histories'], 'every path and loop iteration of icrc7_transfer with the setting on',
     'Needs a batch that mixes transfers that succeed with transfers that fail, under a setting the tests only use for over-long batches.',
     [I7], [('atomic batches', 'updates/icrc7.rs icrc7_transfer')],
     technique='batch typestate over all paths under the atomic setting')
Q7, Q37 = S + 'queries/icrc7.rs', S + 'queries/icrc37.rs'
prop('C16', 'Queries respect the configured limits',
     'icrc7_token_metadata, icrc7_owner_of, icrc7_balance_of and icrc37_is_approved refuse more than max_query_batch_size requests; icrc7_tokens and icrc7_tokens_of refuse a take above max_take_value and return at most take (not given: default_take_value) ids. The documented default of a limit applies exactly when the collection does not set it.',
     ['inputs', 'histories'], 'every path of the six queries, every combination of given and omitted settings',
     'A limit forgotten in one query, or compared only on some path, passes every test that stays below it.',
     [Q7, Q37], [('batch limit', 'queries/icrc7.rs, queries/icrc37.rs icrc37_is_approved'), ('take', 'queries/icrc7.rs icrc7_tokens, icrc7_tokens_of')],
     technique='dominance of replies by limit tests, bounded reply loops')
prop('C28', 'Ownership queries tell the truth',
     'icrc7_owner_of, icrc7_balance_of and icrc7_token_metadata answer each request exactly once in request order, with the stored owner (null only if there is no such token), the number of tokens listed for exactly that account (0 only if none is listed) and exactly the stored metadata entries of that token; icrc7_total_supply is the number of stored tokens; icrc7_tokens and icrc7_tokens_of list stored tokens (of exactly the given account) and leave none out of the range a page covers.',
     ['inputs', 'histories'], 'every path and loop iteration of the six queries',
     'The tests query collections of a few tokens held by default accounts; a mixed-up key or a skipped element shows only for other accounts, subaccounts or sizes.',
     [Q7, S + 'state.rs', S + 'types/nft.rs', S + 'types/metadata.rs'],
     [('queries', 'queries/icrc7.rs'), ('lookups', 'state.rs owner_of, tokens_balance_of, tokens_ids_of_account, total_supply'), ('metadata', 'types/nft.rs token_metadata')],
     technique='provenance of every reply element through local collections')
prop('C31', 'Paging neither skips nor repeats',
     'icrc7_tokens, icrc7_tokens_of and the two approval listings cut a page from a list in an order that does not depend on hash-map iteration (ids: ascending), and the page starts right behind the element named by the cursor, so walking the pages of an unchanged collection returns every element once.',
     ['inputs', 'histories'], 'every path of the four paged queries',
     'Hash-map order is random; a test with a handful of elements passes by luck.',
     [Q7, Q37], [('pages', 'queries/icrc7.rs, queries/icrc37.rs')],
     technique='typestate of the page source and of the cursor position')
prop('C33', 'Approval listings report the stored approvals',
     'icrc37_get_token_approvals and icrc37_get_collection_approvals report, for exactly the requested token / account, stored approvals with their own spender, granting subaccount, expiry, memo and creation time, and consider every stored approval.',
     ['inputs', 'histories'], 'every path and loop iteration of the two queries, every field',
     'The fields have the same types pairwise; a swap shows only for approvals the tests do not create.',
     [Q37], [('listings', 'queries/icrc37.rs')],
     technique='field-by-field provenance of every reply element')
prop('C34', 'is_approved answers exactly by approvals and ownership',
     'icrc37_is_approved answers each request once, in order; it says yes only if the spender holds an unexpired approval for the token, or an unexpired collection approval of the account that owns the token, or itself owns it with the given subaccount; it says no only if none of these holds.',
     ['inputs', 'schedules', 'histories'], 'every path of icrc37_is_approved',
     'Three grounds with expiry and absence give dozens of combinations; the tests try a few.',
     [Q37], [('decision', 'queries/icrc37.rs icrc37_is_approved')],
     technique='path-sensitive decision-table analysis of every answer')
prop('C42', 'A request is refused only for a reason that holds',
     'An operation request is refused only on paths that establish the reason it is given: token absent, too old / in the future beyond the configured window and drift (naming the current time of the ledger), the log named a duplicate (and the answer names the same block), caller not the owner or without an entitlement in force, recipient / spender anonymous or the caller itself, memo / batch / rate / approval / supply limit reached, log failure; a management call is rejected only without its permission and answered ConcurrentManagementCall only while another one runs.',
     ['inputs', 'schedules', 'histories'], 'every refusal on every path of the nine operations and of the 14 guarded methods',
     'A refusal on the wrong condition (negated test, wrong clock margin, wrong account field, stale error mapping) blocks legitimate holders for inputs the tests do not send.',
     [I7, I37, MG, S + 'utils.rs', S + 'guards.rs'],
     [('refusals', 'updates/icrc7.rs, updates/icrc37.rs, updates/management.rs'), ('time window', 'updates/icrc37.rs verify_approval_timing'), ('permission guards', 'guards.rs')],
     technique='path-sensitive reason typestate: every error answer must be dominated by the branch facts of its error kind')
UP = [MG, S + 'state.rs', S + 'types/sub_canister.rs']
prop('C19', 'Upload records follow the storage canister',
     'The record of an upload changes only through the upload methods and the clean-up job, only under the path named by the request, and only after the storage canister recorded for the upload (for a new upload: the one that accepted it) confirmed the same request: init_upload records a path not in use as Init with the current time and that canister; store_chunk moves Init or InProgress to InProgress; finalize_upload moves InProgress to Finalized; cancel_upload forgets an unfinished upload. Start time, canister and path of a record never change.',
     ['inputs', 'schedules', 'faults'], 'every path of the four upload methods with every outcome of the storage canister call; every other exported method (must not touch upload records)',
     'The tests run one upload in order; they do not let the storage canister fail or another call finalize the upload while one waits.',
     UP, [('upload record', 'updates/management.rs init_upload, store_chunk, finalize_upload, cancel_upload; state.rs InternalFilestorage')],
     technique='typestate of upload records over all paths, provenance of storage canister calls')
prop('C20', 'Upload answers are true',
     'init_upload, store_chunk, finalize_upload and cancel_upload answer Ok exactly when the storage canister accepted the request and the upload was recorded accordingly, and give an error (FileAlreadyExists, UploadNotInitialized, UploadNotStarted, UploadAlreadyFinalized, IncompleteUpload, StorageCanisterError, ConcurrentManagementCall) only on paths that establish it, with the record unchanged. get_upload_status reports the recorded state and an unknown path only if no record exists; get_all_uploads reports the recorded states, in pages cut from an ordered list.',
     ['inputs', 'schedules', 'faults', 'histories'], 'every answer on every path of the six methods',
     'Error branches after a failed inter-canister call are not reachable in the tests; page order depends on the hash seed.',
     UP, [('answers', 'updates/management.rs'), ('get_upload_status, get_all_uploads', 'updates/management.rs')],
     technique='answer / reason typestate over all paths, order analysis of the listed collection')
prop('C21', 'A finalized file is served',
     'finalize_upload answers Ok only after it certified a redirection from the path of the file (with a leading /) at this canister to the same path at the storage canister that holds the file, set the certified data to the new root, and stored the same redirection for later upgrades; the answered address is that path at this canister. No redirection is certified or stored before the storage canister finalized the file, and no other method changes the stored redirections.',
     ['inputs', 'faults'], 'every path of finalize_upload, every exported method',
     'Whether the redirection is certified and survives an upgrade is not observed by any test for more than one path form.',
     [MG, S + 'types/http.rs', S + 'state.rs'], [('redirection', 'updates/management.rs finalize_upload'), ('certified tree', 'types/http.rs')],
     technique='ordering typestate and provenance of the redirected addresses')
prop('C38', 'Abandoned uploads are cleaned up',
     'Each run of the daily job asks the storage canister to cancel every upload that is older than a day and not finalized, and no other; it asks the canister recorded for the upload, under the path of the upload, forgets an upload exactly when that call succeeded, and one failing cancellation does not stop it from looking at the others.',
     ['histories', 'faults', 'schedules'], 'every path and iteration of the clean-up job',
     'No test waits a day or lets a cancellation fail.',
     [S + 'jobs/upload_garbage_collector.rs', S + 'state.rs'], [('job', 'jobs/upload_garbage_collector.rs')],
     technique='per-iteration typestate over all paths of the job')
prop('C39', 'Storage canisters are kept and not overfilled',
     'A storage canister created during a call is in the list of storage canisters before the call answers or ends, whatever the outcome of the upload; the list is only extended. init_upload places no file above the file limit, places a file on an existing canister only if its reported size plus the file fits the storage limit, and creates a canister only after it tried the existing ones.',
     ['inputs', 'faults', 'histories'], 'every path of init_upload and of every method that writes the list',
     'A canister lost on an error path is paid for and never found again; tests do not fail the upload after the creation.',
     [MG, S + 'types/sub_canister.rs'], [('creation', 'types/sub_canister.rs init_upload'), ('write-back', 'updates/management.rs init_upload')],
     technique='typestate of created canisters, dominance of the size checks')
prop('C24', 'The index misses no block and indexes none twice',
     'The number of indexed blocks the index canister stores (last_block_id, reported by status and get_blocks) starts at 0 and is moved only by the indexing job, and by exactly the number of blocks it indexed; it asks the ledger for the blocks from the stored progress on, takes them in ascending order, indexes a block only after comparing its id with a progress that was read after the ledger answered (so overlapping runs do not index a block twice), stops at the first block it cannot index, and no other method writes the index.',
     ['schedules', 'histories', 'faults'], 'every path of every timer job of the index canister with reads before a suspension treated as stale; every exported method (must not move the progress)',
     'Overlapping runs of the job need a slow ledger; the tests run it once at a time.',
     [IX + 'jobs.rs', IX + 'index.rs', IX + 'state.rs'], [('job', 'jobs.rs process_blocks'), ('reports', 'queries/queries.rs status, update/get_blocks.rs')],
     technique='typestate of progress and blocks over all paths of the job, staleness analysis across suspensions')
prop('C25', 'Every block is found under its accounts, its kind and its token',
     'For a block of every kind and shape the ledger appends, and every way its accounts may coincide, indexing it succeeds without trapping and adds its id exactly once to the stored list of each account that occurs in it (sender, recipient, spender), of its kind, and of its token if it has one, and to no other list; the lists keep the entries they had.',
     ['inputs', 'histories'], 'every block kind x field combination x account partition the methods of the ledger can append; every path of the functions that enter blocks',
     'The tests index a handful of blocks whose accounts differ; a kind, role or coincidence that is left out is not queried.',
     [IX + 'index.rs', IX + 'blocks.rs'], [('indexing', 'index.rs add_block_to_index'), ('fields', 'blocks.rs TransactionDataExtractor implementations')],
     technique='abstract interpretation of the indexing functions over symbolic blocks of every shape')
prop('C26', "Index answers are the ledger's blocks",
     'get_blocks of the index canister answers only with blocks the ledger (or an archive it named) returned, each under its own id; every requested id is answered from the cache entry stored under that id or fetched, and no fetched or cached block is left out; a cache entry is only ever written with the id and content of a block of such an answer and the current time; filters are intersected; the ascending page is the id list from start for length entries and is answered in ascending order, and the unfiltered ascending page is the id range from start.',
     ['inputs', 'schedules', 'histories'], 'every path of get_blocks and of every exported method or job that writes the block cache',
     'The tests ask for a few pages with a cold cache; mixtures of cached, archived and consecutive ids and the intersection of several filters are not sampled.',
     [IX + 'update/get_blocks.rs', IX + 'blocks.rs', IX + 'cache.rs'],
     [('paging and filters', 'update/get_blocks.rs'), ('fetching', 'blocks.rs get_all_blocks, group_consecutive_block_ids'), ('cache', 'cache.rs')],
     technique='provenance of every answered and cached block over all paths, per-iteration typestate')
prop('C23', 'What the canister announces it does',
     'Every kind of block the canister appends is announced under its own name in the supported block types (and no other kind is), icrc3_get_archives, icrc3_get_blocks, icrc3_get_properties, icrc3_get_tip_certificate and icrc3_supported_block_types answer exactly what the block log answers to the same request, and the standards named by icrc10_supported_standards are exactly those whose methods are all exported, each once and with the address of its own text.',
     ['inputs', 'histories'], 'every append site, every export, every answer of the six queries',
     'A consumer of the log meets block kinds only as they are appended; the tests compare no list with the code.',
     [S + 'lifecycle/init.rs', S + 'state.rs', S + 'queries/icrc3.rs', S + 'queries/icrc10.rs'],
     [('block kinds', 'lifecycle/init.rs init'), ('log queries', 'queries/icrc3.rs'), ('standards', 'queries/icrc10.rs')],
     technique='comparison of announced constants with append sites and the export table over all paths, provenance of query answers')
prop('C35', 'Consent messages describe the call',
     'The consent message for a call of icrc7_transfer, icrc37_transfer_from, icrc37_approve_tokens, icrc37_approve_collection, icrc37_revoke_token_approvals or icrc37_revoke_collection_approvals is made from the argument of that call, decoded as that method decodes it; it names that method and no other, speaks of the action of that method, states the true number of requests where there may be more than one, names one account only if there is one request, and is labelled with the language asked for. A readable request for one of these methods is answered with a message (no refusal, no trap); no message is given for another method or an unreadable argument.',
     ['inputs'], 'every path of icrc21_canister_call_consent_message',
     'No test requests a consent message; batches of several or no requests need inputs of every method.',
     [S + 'queries/icrc21.rs'], [('messages', 'queries/icrc21.rs')],
     technique='path-sensitive typestate of the answered message: method, decoded type, text and count must agree')
prop('C22', 'Stored values are read back',
     'Every value the canisters keep in stable memory under a hand-written format - token numbers, accounts, approval lists, token metadata and metadata values of every kind in the ledger; numbers, accounts, index values and cached blocks in the index canister - can be written without trapping whatever its variant, size of its numbers and number of its entries, and reading what was written gives the same value: same variant, same fields, an absent subaccount absent and a present one present, no entry lost or changed.',
     ['inputs'], 'every variant, absent / present option, lists of 0, 1, 2 and 300 entries, symbolic contents; nested values by induction over the structure; every path of the writer followed by every path of the reader',
     'The unit tests read back a few small values; numbers beyond 64 bits, long lists, absent subaccounts and single variants with a swapped tag are not among them, and a mismatch shows only when a stored value is next read.',
     [S + 'types/wrapped_types.rs', S + 'types/value_custom.rs', S + 'types/metadata.rs', IX + 'wrapped_values.rs', IX + 'cache.rs'],
     [('ledger formats', 'types/wrapped_types.rs, types/value_custom.rs, types/metadata.rs'), ('index formats', 'wrapped_values.rs, cache.rs CacheEntry')],
     technique='symbolic composition of writer and reader over all value shapes and paths')
prop('C27', 'Token metadata is exactly what was requested',
     'A mint stores, for every request, exactly the metadata entries of that request under the fresh id of that request, no more and no fewer, and update_nft_metadata replaces the metadata of the named token by exactly the entries of the request and touches no other token; no other exported method or job writes token metadata. The update block carries the complete previous entries and the complete new ones of that token.',
     ['inputs', 'histories'], 'every path of every exported method and job that writes token metadata, every list of requests and entries',
     'The tests set a couple of entries and look up the ones they set; entries dropped, kept, overwritten across requests or recorded wrongly in the block need longer lists and specific keys.',
     [MG, S + 'types/metadata.rs', S + 'types/nft.rs'],
     [('mint', MG), ('metadata update', MG), ('replacement', S + 'types/metadata.rs')],
     technique='provenance and completeness of stored and logged entries over all paths, per-iteration typestate')
prop('C36', 'Administrative queries tell the truth',
     'has_permission answers Ok(true) exactly if the principal of the request holds the permission of the request, and Ok(false) otherwise; get_user_permissions answers exactly the stored permissions of the principal of the request, and UserNotFound only if nothing is stored for it; get_all_storage_subcanisters answers the storage canisters of the manager.',
     ['inputs', 'histories'], 'every path of the three queries',
     'Access decisions of operators rest on these answers; the tests ask for a few principals with one or two permissions.',
     [MG, S + 'types/permissions.rs'], [('permission queries', MG), ('lookup', S + 'types/permissions.rs')],
     technique='path-sensitive comparison of every answer with the decided facts about the stored list')
prop('C43', 'Nothing goes to the anonymous principal',
     'No exported method except minting makes an account of the anonymous principal the owner of a token or the spender of an approval, whatever subaccount the request gives: anyone can act as the anonymous principal, so such a token or approval would be everybody\'s.',
     ['inputs', 'histories'], 'every write of a token owner and every granted approval in every exported update method except mint',
     'Four methods repeat the test on one field of the request each; the tests send the anonymous account without a subaccount to some of them.',
     [I7, I37],
     [('recipient', 'updates/icrc7.rs transfer_nft, updates/icrc37.rs transfer_from'), ('spender', 'updates/icrc37.rs approve_token, approve_collection')],
     technique='path-sensitive dominance of state writes by a principal comparison')
CL = 'cmdline/src/'
prop('C37', 'The command line tool does what it is told',
     'Every subcommand of the command line tool sends exactly the requests it stands for to the canister given, as awaited updates where state changes, with the arguments given: permission names stand for their own permission in requests and in what is shown, a mint carries the owner, subaccount, memo, metadata URL and every metadata entry given under its own key and value, the network selects its own address, and the root key is taken from the network only off the main network. It reports success only after it decoded an Ok answer to every request.',
     ['inputs', 'faults'], 'every path of the program from main, with unknown arguments, file contents and replies',
     'The tool has no tests: they would need a replica and a reply for each outcome.',
     [CL + 'main.rs', CL + 'commands.rs', CL + 'cli.rs', CL + 'metadata.rs', CL + 'utils.rs', CL + 'calls/'],
     [('subcommands', 'cmdline/src/commands.rs'), ('requests', 'cmdline/src/calls/mint.rs, permissions.rs, uploads.rs'), ('metadata', 'cmdline/src/metadata.rs')],
     technique='whole-program path exploration with symbolic arguments and replies, typestate of requests')
prop('C29', 'The tool uploads the whole file or reports failure',
     'The upload command announces the size and the lower-case SHA-256 hash of exactly the content it read from the file given, sends every chunk of that content once, in full, under its position and the announced path, each accepted by the canister, before it finalizes the upload, and it reports failure otherwise.',
     ['inputs', 'faults'], 'every path of the upload command, every length of the file, every outcome of reads and requests',
     'Short reads, refused chunks and lengths that are a multiple of the chunk size do not occur in a test without a replica and a fault injector.',
     [CL + 'calls/uploads.rs', CL + 'commands.rs'],
     [('upload', 'cmdline/src/calls/uploads.rs upload_file')],
     technique='typestate of an upload over all paths, provenance of chunk contents')
