# planted bugs: edits to /repo (old text must be unique), demonstration (JS against the real canister wasm)
B = {}
C = 'src/core_nft/src/'


def bug(id, property, needs, breaks, edits, demo):
    B[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)


bug('b01-uploads-perm', 'C01', 'a principal that holds only the ReadUploads permission',
    'the guard of the upload operations tests ReadUploads instead of UpdateUploads, so a read-only principal can start, feed and cancel uploads',
    [(C + 'guards.rs', '''    caller_has_update_uploads_permission,
    Permission::UpdateUploads,''', '''    caller_has_update_uploads_permission,
    Permission::ReadUploads,''')],
    '''
const n = new Nft({}, [[admin, ALL], [bob, ['ReadUploads']]]);
const arg = [T.Rec({ file_path: T.Text })];
check(rejected(() => n.c.update('cancel_upload', arg, [{ file_path: '/x' }], bob)), 'a principal with only ReadUploads reached cancel_upload');
check(!rejected(() => n.c.update('cancel_upload', arg, [{ file_path: '/x' }], admin)), 'admin refused');
''')

bug('b02-from-subaccount', 'C02', 'a token held by a subaccount and a transfer_from that names another subaccount of the same principal',
    'transfer_from compares only the principals of the owner and of the named account: a token held by one subaccount is moved by a request naming another one, and the block names an account that never owned it',
    [(C + 'updates/icrc37.rs', 'let is_owner = nft.token_owner == arg.from;', 'let is_owner = nft.token_owner.owner == arg.from.owner;')],
    '''
const n = new Nft();
n.mintTo(acc(alice, 1), 1);
const r = n.transferFrom([{ from: acc(alice), to: acc(bob), token_id: 1 }], alice);
check(n.owner(1) === alice.toString(), 'a transfer naming an account that does not own the token went through: ' + J(r));
check(n.transferFrom([{ spender_subaccount: acc(alice, 1).subaccount, from: acc(alice, 1), to: acc(bob), token_id: 1 }], alice).Ok[0].Ok !== undefined, 'the owner cannot transfer');
''')

bug('b03-renounce', 'C03', 'revocation of all approvals of somebody else\'s token by one of its spenders',
    'a spender may call revoke for a token it does not own, and by naming no spender wipes the approvals of all spenders',
    [(C + 'updates/icrc37.rs', '''    if owner != Some(from_account.clone()) {
        return RevokeTokenApprovalResponse::Err(RevokeTokenApprovalError::Unauthorized);
    }
''', '''    let is_spender = __TOKEN_APPROVALS.with_borrow(|token_approvals| {
        token_approvals
            .get(&WrappedNat::from(arg.token_id.clone()))
            .map(|a| a.0.contains_key(&WrappedAccount::from(from_account.clone())))
            .unwrap_or(false)
    });

    // a spender may give up its own approval
    if owner != Some(from_account.clone()) && !is_spender {
        return RevokeTokenApprovalResponse::Err(RevokeTokenApprovalError::Unauthorized);
    }
''')],
    '''
const n = new Nft();
n.mintTo(acc(alice), 1);
n.approveTokens([{ token_id: 1, spender: acc(bob) }, { token_id: 1, spender: acc(carol) }], alice);
check(n.isApproved(acc(carol), 1) === true, 'carol not approved');
n.revokeTokens([{ token_id: 1 }], bob);
check(n.isApproved(acc(carol), 1) === true, 'bob, who does not own token 1, revoked the approval of carol');
n.revokeTokens([{ token_id: 1, spender: acc(carol) }], alice);
check(n.isApproved(acc(carol), 1) === false, 'the owner cannot revoke');
''')

bug('b04-duplicate-applied', 'C04', 'approve, revoke, and the same approve again at the same time: the log refuses the duplicate',
    'when the log refuses the block as a duplicate the approval is stored all the same, without a block',
    [(C + 'updates/icrc37.rs', '''            return ApproveTokenResult::Err(ApproveTokenError::GenericError {
                error_code: Nat::from(1u64),
                message: format!("Failed to log transaction: {}", e),
            });
        }
    };

    __TOKEN_APPROVALS.with_borrow_mut(|s| {''', '''            if let Icrc3Error::DuplicateTransaction { duplicate_of } = e {
                duplicate_of
            } else {
                return ApproveTokenResult::Err(ApproveTokenError::GenericError {
                    error_code: Nat::from(1u64),
                    message: format!("Failed to log transaction: {}", e),
                });
            }
        }
    };

    __TOKEN_APPROVALS.with_borrow_mut(|s| {''')],
    '''
const n = new Nft({ tx_window: 1000000000n });
n.mintTo(acc(alice), 1);
const at = n.rep.time;
n.approveTokens([{ token_id: 1, spender: acc(bob), created_at_time: at }], alice);
n.revokeTokens([{ token_id: 1, spender: acc(bob), created_at_time: at }], alice);
const before = n.log().length;
n.approveTokens([{ token_id: 1, spender: acc(bob), created_at_time: at }], alice);
check(n.log().length > before || n.isApproved(acc(bob), 1) === false, 'bob is approved although no block says so');
''')

bug('b05-block-time', 'C05', 'a transfer_from whose created_at_time differs from the ledger time',
    'the block of a transfer on behalf records the ledger time instead of the creation time of the request',
    [(C + 'updates/icrc37.rs', '            created_at_time: arg.created_at_time.map(Nat::from),\n', '            created_at_time: arg.created_at_time.map(|_| Nat::from(current_time)),\n')],
    '''
const n = new Nft();
n.mintTo(acc(alice), 1);
n.approveTokens([{ token_id: 1, spender: acc(bob) }], alice);
const at = n.rep.time - 1000000000n;
const r = n.transferFrom([{ from: acc(alice), to: acc(carol), token_id: 1, created_at_time: at }], bob);
check(n.owner(1) === carol.toString(), 'transfer failed ' + J(r));
const b = n.log().at(-1);
check(b.tx.created_at_time === at, 'the block says the request was made at ' + b.tx.created_at_time + ', the request says ' + at);
''')

bug('b07-transfer-unlist', 'C08', 'an account whose list is not in increasing order (it received an older token later) and a transfer of a token out of it',
    'a transfer looks the token up by binary search in the list of the old owner, which is not sorted, so the token can stay listed',
    [(C + 'updates/icrc7.rs', '''                state
                    .data
                    .tokens_list_by_owner
                    .entry(previous_owner)
                    .or_insert(vec![])
                    .retain(|id| *id != nft.token_id.clone());
''', '''                let owner_tokens = state
                    .data
                    .tokens_list_by_owner
                    .entry(previous_owner)
                    .or_insert(vec![]);
                if let Ok(i) = owner_tokens.binary_search(&nft.token_id) {
                    owner_tokens.remove(i);
                }
''')],
    '''
const n = new Nft();
n.mint([{ token_owner: acc(bob) }, { token_owner: acc(bob) }, { token_owner: acc(alice) }, { token_owner: acc(alice) }]);
const later = f => { n.rep.tick(1000000000); check(J(f()).includes('Ok'), 'refused'); };
later(() => n.transfer([{ to: acc(alice), token_id: 2 }], bob));
later(() => n.transfer([{ to: acc(alice), token_id: 1 }], bob));
for (const i of [1, 4, 3, 2]) later(() => n.transfer([{ to: acc(carol), token_id: i }], alice));
check(J(n.balance(acc(alice))) === '0', 'balance of alice is ' + J(n.balance(acc(alice))) + ' without any token');
''')

bug('b08-keep-other-approvals', 'C09', 'two approvals on one token and a transfer by one of the spenders',
    'a transfer on behalf drops only the approval of the spender that used it; the other spender can take the token from the new owner',
    [(C + 'updates/icrc37.rs', '''    __TOKEN_APPROVALS.with_borrow_mut(|token_approvals| {
        token_approvals.remove(&WrappedNat::from(arg.token_id.clone()));
    });

    let has_nfts''', '''    // the approval is used up
    __TOKEN_APPROVALS.with_borrow_mut(|token_approvals| {
        let key = WrappedNat::from(arg.token_id.clone());
        if let Some(mut approvals) = token_approvals.remove(&key) {
            approvals.0.remove(&WrappedAccount::from(spender_account));
            if !approvals.0.is_empty() {
                token_approvals.insert(key, approvals);
            }
        }
    });

    let has_nfts''')],
    '''
const n = new Nft();
n.mintTo(acc(alice), 1);
n.approveTokens([{ token_id: 1, spender: acc(bob) }, { token_id: 1, spender: acc(carol) }], alice);
n.transferFrom([{ from: acc(alice), to: acc(dave), token_id: 1 }], bob);
check(n.owner(1) === dave.toString(), 'transfer failed');
n.transferFrom([{ from: acc(dave), to: acc(carol), token_id: 1 }], carol);
check(n.owner(1) === dave.toString(), 'carol took the token from dave with an approval of alice');
''')

bug('b09-guard-per-caller', 'C10', 'two managers, the second calling while the first one waits for the storage canister',
    'the management guard only excludes a second call of the same principal, so two managers run at the same time',
    [(C + 'guards.rs', '            if s.principal_guards.len() >= MAX_CONCURRENT {', '            if s.principal_guards.contains(&principal) {')],
    '''
const n = new Nft({}, [[admin, ALL], [bob, ALL]]);
n.rep.hold = c => true;
const F = [T.Rec({ file_path: T.Text, file_hash: T.Text, file_size: T.Nat64, chunk_size: T.Opt(T.Nat64) })];
const h = n.c.send('init_upload', F, [{ file_path: '/a', file_hash: 'x', file_size: 10n, chunk_size: null }], admin);
n.rep.pump();
check(!h.done && n.rep.queue.length > 0, 'the upload did not suspend');
const r = n.grant(carol, 'Minting', bob);
check(J(r).includes('ConcurrentManagementCall'), 'a second management update ran while the first was suspended: ' + J(r));
''')

bug('b10-revoke-once', 'C30', 'the same permission granted twice, then revoked',
    'revoking removes only one occurrence of a permission that was granted twice: the principal keeps it',
    [(C + 'types/permissions.rs', '            permissions.retain(|p| p != permission);\n', '''            if let Some(i) = permissions.iter().position(|p| p == permission) {
                permissions.swap_remove(i);
            }
''')],
    '''
const n = new Nft();
n.grant(bob, 'Minting'); n.grant(bob, 'Minting');
n.revoke(bob, 'Minting');
check(J(n.has(bob, 'Minting')) === J({ Ok: false }), 'bob still holds Minting after it was revoked');
''')

bug('b11-nested-borrow', 'C11', 'a transfer_from that uses an expired collection approval',
    'the clean-up of an expired collection approval reads the approval table while it is mutably borrowed: the call traps',
    [(C + 'updates/icrc37.rs', '''                        if approval_map.is_empty() {
                            collection_approvals''', '''                        crate::utils::trace(&format!(
                            "expired collection approval removed, {} accounts left",
                            __COLLECTION_APPROVALS.with_borrow(|c| c.len())
                        ));
                        if approval_map.is_empty() {
                            collection_approvals''')],
    '''
const n = new Nft();
n.mintTo(acc(alice), 1);
n.approveCollection([{ spender: acc(bob), expires_at: n.rep.time + 1000n }], alice);
n.rep.tick(5000);
let r;
check(!rejected(() => { r = n.transferFrom([{ from: acc(alice), to: acc(carol), token_id: 1 }], bob); }), 'the call trapped');
check(J(r).includes('Unauthorized'), J(r));
''')

bug('b12-burn-suspends', 'C12', 'a transfer that arrives while a burn is waiting',
    'burning waits for a management canister call between its ownership check and its effects: a token transferred meanwhile is burnt from under its new owner',
    [(C + 'updates/management.rs', 'pub fn burn_nft(token_id: Nat)', 'pub async fn burn_nft(token_id: Nat)'),
     (C + 'updates/management.rs', '''    if caller != token.token_owner.owner {
        return Err(management::burn_nft::BurnNftError::NotTokenOwner);
    }
''', '''    if caller != token.token_owner.owner {
        return Err(management::burn_nft::BurnNftError::NotTokenOwner);
    }

    // keep an audit trail of the entropy at the time of the burn
    if let Ok(entropy) = ic_cdk::management_canister::raw_rand().await {
        trace(&format!("burn {} - {:?}", token_id, entropy));
    }
''')],
    '''
const n = new Nft();
n.rep.mock(Principal.management(), () => ({ reply: encode([T.Blob], [new Uint8Array(32)]) }));
n.mintTo(acc(alice), 1);
n.rep.hold = () => true;
const h = n.c.send('burn_nft', [T.Nat], [1], alice);
n.rep.pump();
n.c.send('icrc7_transfer', [T.Vec(T.Rec({ to: T.Account, token_id: T.Nat, memo: T.Opt(T.Blob), from_subaccount: T.Opt(T.Blob), created_at_time: T.Opt(T.Nat64) }))], [[{ to: acc(bob), token_id: 1 }]], alice);
const owned = n.owner(1);
n.rep.hold = null;
n.rep.pump();
check(h.done, 'burn not answered');
check(owned !== bob.toString() || n.owner(1) === bob.toString(), 'the token of bob was burnt by alice');
''')

bug('b13-id-from-table', 'C07', 'mint, burn of the newest token, mint',
    'the next token id is taken from the token table instead of the counter, so the id of the newest token is given out again after it was burnt',
    [(C + 'updates/management.rs', '    let current_token_id = read_state(|state| state.data.last_token_id.clone());\n', '''    let current_token_id = read_state(|state| {
        state
            .data
            .tokens_list
            .keys()
            .max()
            .map(|id| id.clone() + Nat::from(1u64))
            .unwrap_or(state.data.last_token_id.clone())
    });
''')],
    '''
const n = new Nft();
n.mintTo(acc(alice), 3);
n.burn(3, alice);
const r = n.mintTo(acc(bob), 1);
check(J(r) === J({ Ok: 4 }), 'the id of a burnt token was given out again: ' + J(r));
''')

bug('b14-cursor-restart', 'C31', 'a page cursor naming a token that was burnt between two calls',
    'the next page of tokens starts from the beginning when the token named by the cursor no longer exists',
    [(C + 'queries/icrc7.rs', '''        let mut tokens: Vec<_> = state.data.tokens_list.keys().cloned().collect();
        tokens.sort();
        let start_index = tokens
            .iter()
            .position(|id| id > &prev)
            .unwrap_or(tokens.len());
''', '''        let mut tokens: Vec<_> = state.data.tokens_list.keys().cloned().collect();
        tokens.sort();
        let start_index = tokens
            .iter()
            .position(|id| id == &prev)
            .map(|pos| pos + 1)
            .unwrap_or(0);
''')],
    '''
const n = new Nft();
n.mintTo(acc(alice), 5);
const p = n.tokens(null, 2);
check(J(p) === J([1, 2]), 'first page ' + J(p));
n.rep.tick(1000000000);
check(J(n.burn(2, alice)).includes('Ok'), 'burn refused');
const q = n.tokens(2, 2);
check(J(q) === J([3, 4]), 'the page behind token 2 is ' + J(q));
''')

bug('b15-atomic-oversize', 'C32', 'atomic batches, max_update_batch_size below its default and a longer batch',
    'an atomic batch longer than the configured limit (but not than the default limit) is cut instead of refused: only its first part is executed',
    [(C + 'updates/icrc7.rs', '    if atomic_batch_transfers && args.len() > max_batch_size {', '''    if atomic_batch_transfers
        && Nat::from(args.len()) > Nat::from(icrc7::DEFAULT_MAX_UPDATE_BATCH_SIZE)
    {''')],
    '''
const n = new Nft({ atomic_batch_transfers: true, max_update_batch_size: 2 });
n.mintTo(acc(alice), 1); n.mintTo(acc(alice), 2);
n.transfer([1, 2, 3].map(i => ({ to: acc(bob), token_id: i })), alice);
const o = [1, 2, 3].map(i => n.owner(i));
check(new Set(o).size === 1, 'an atomic batch of three was executed in part: ' + o);
''')

bug('b16-take-clamp', 'C15', 'an update that sets max_take_value and default_take_value such that the order matters',
    'update_collection_metadata stores the smaller of the given default and the current maximum, so the reported setting is not the given one',
    [(C + 'updates/management.rs', '            state.data.default_take_value = Some(default_take_value);\n', '''            let max = state.data.max_take_value.clone();
            state.data.default_take_value =
                Some(max.map_or(default_take_value.clone(), |m| m.min(default_take_value)));
''')],
    '''
const n = new Nft();
n.updateCollection({ max_take_value: 10 });
n.updateCollection({ default_take_value: 20 });
check(J(n.get('icrc7_default_take_value')) === '20', 'default_take_value is ' + J(n.get('icrc7_default_take_value')) + ' after it was set to 20');
''')

bug('b17-expired-lingers', 'C02', 'an account with two collection approvals of which one has expired',
    'an expired collection approval is removed, but still used once when the account has other approvals',
    [(C + 'updates/icrc37.rs', '''                        if approval_map.is_empty() {
                            collection_approvals.remove(&WrappedAccount::from(nft.token_owner));
                        }

                        collection_approvals.insert(
                            WrappedAccount::from(nft.token_owner.clone()),
                            WrappedApprovalValue(approval_map),
                        );
                        return false;
''', '''                        if approval_map.is_empty() {
                            collection_approvals.remove(&WrappedAccount::from(nft.token_owner));
                            return false;
                        }

                        collection_approvals.insert(
                            WrappedAccount::from(nft.token_owner.clone()),
                            WrappedApprovalValue(approval_map),
                        );
''')],
    '''
const n = new Nft();
n.mintTo(acc(alice), 2);
n.approveCollection([{ spender: acc(bob), expires_at: n.rep.time + 5000000000n }], alice);
n.approveCollection([{ spender: acc(carol) }], alice);
n.rep.tick(20000000000);
const r = n.transferFrom([{ from: acc(alice), to: acc(dave), token_id: 1 }], bob);
check(n.owner(1) === alice.toString(), 'bob moved a token with an expired approval: ' + J(r));
''')

bug('b18-approval-expiry-edge', 'C34', 'is_approved at the very time an approval expires',
    'icrc37_is_approved answers true at the time of expiry, when a transfer with the approval is already refused',
    [(C + 'queries/icrc37.rs', '                        expires_at > current_time\n', '                        expires_at >= current_time\n')],
    '''
const n = new Nft();
n.mintTo(acc(alice), 1);
n.approveTokens([{ token_id: 1, spender: acc(bob), expires_at: n.rep.time + 5000000000n }], alice);
n.rep.tick(Number(0));
const exp = n.tokenApprovals(1)[0].approval_info.expires_at;
n.rep.time = BigInt(exp);
check(n.isApproved(acc(bob), 1) === false, 'bob counts as approved at the time his approval expires');
''')

bug('b19-anonymous-subaccount', 'C43', 'a transfer to a subaccount of the anonymous principal',
    'only the default account of the anonymous principal is refused as a recipient',
    [(C + 'updates/icrc37.rs', '    if arg.to.owner == Principal::anonymous() {\n', '    if arg.to == Account::from(Principal::anonymous()) {\n')],
    '''
const n = new Nft();
n.mintTo(acc(alice), 1);
const r = n.transferFrom([{ from: acc(alice), to: acc(Principal.anonymous(), 1), token_id: 1 }], alice);
check(n.owner(1) === alice.toString(), 'a token went to the anonymous principal: ' + J(r));
''')

bug('b20-supply-from-counter', 'C28', 'a burn followed by a supply query',
    'the total supply is computed from the id counter, so burnt tokens still count',
    [(C + 'state.rs', '        Nat::from(self.tokens_list.len() as u64)\n', '        self.last_token_id.clone() - Nat::from(1u64)\n')],
    '''
const n = new Nft();
n.mintTo(acc(alice), 3);
check(J(n.supply()) === '3', 'supply ' + J(n.supply()));
n.burn(2, alice);
check(J(n.supply()) === '2', 'total supply is ' + J(n.supply()) + ' with two tokens');
''')

bug('b21-memo-chars', 'C17', 'a memo with bytes that are not ASCII',
    'the memo is measured in characters instead of bytes, so a memo longer than max_memo_size is logged',
    [(C + 'utils.rs', '        if memo.len() > max_memo_size {', '        if String::from_utf8_lossy(memo).chars().count() > max_memo_size {')],
    '''
const n = new Nft({ max_memo_size: 32 });
n.mintTo(acc(alice), 1);
const r = n.transferFrom([{ from: acc(alice), to: acc(bob), token_id: 1, memo: new Uint8Array(Buffer.from('\\u00e9'.repeat(30))) }], alice);
check(n.owner(1) === alice.toString(), 'a memo of 60 bytes was accepted with max_memo_size 32: ' + J(r));
''')

bug('b22-window-first', 'C18', 'more transfers of one token than the rate limit allows, spread over the window',
    'the rate window is cleared as soon as its oldest entry has left it, so later entries are forgotten and the limit is exceeded',
    [(C + 'guards.rs', '''        call_history.retain(|&timestamp| {
            current_time.saturating_sub(timestamp) < SLIDING_WINDOW_DURATION_NS
        });
''', '''        if let Some(&oldest) = call_history.first() {
            if current_time.saturating_sub(oldest) >= SLIDING_WINDOW_DURATION_NS {
                call_history.clear();
            }
        }
''')],
    '''
const n = new Nft();
n.mintTo(acc(alice), 1);
const t0 = n.rep.time;
// refused for its recipient, but it takes a slot of the rate window
const go = ms => { n.rep.time = t0 + BigInt(ms) * 1000000n; return !J(n.transferFrom([{ from: acc(alice), to: acc(alice), token_id: 1 }], alice)).includes('Rate limit'); };
const got = [0, 50, 52, 54, 56, 58, 61, 63, 65, 67, 69].filter(go);
check(got.length >= 5, 'limit too strict: ' + got);
for (const x of got) check(got.filter(y => y >= x && y < x + 60).length <= 5, 'more than five operations on a token within 60 ms: at ' + got);
''')

bug('b23-prev-metadata', 'C05', 'an update of the metadata of a token that sets an existing entry',
    'the block of a metadata update leaves the old values of the entries that are set anew out of the previous metadata',
    [(C + 'updates/management.rs', '''                __METADATA.with_borrow(|m| m.get_all_data(Some(token_name_hash.clone())));
''', '''                __METADATA.with_borrow(|m| m.get_all_data(Some(token_name_hash.clone())));
            let previous_metadata = previous_metadata.map(|m| {
                m.into_iter()
                    .filter(|(k, _)| !req.metadata.iter().any(|(name, _)| name == k))
                    .collect::<BTreeMap<_, _>>()
            });
''')],
    '''
const n = new Nft();
n.mintTo(acc(alice), 1);
n.setMeta(1, [{ 0: 'k', 1: { Text: 'w' } }]);
const m = n.log().at(-1).tx.meta;
check(J(m['icrc7:previous_metadata']) === J({ k: 'v' }), 'the block gives the previous metadata as ' + J(m));
''')

bug('b24-key-trim', 'C27', 'a mint with a metadata key that has surrounding spaces',
    'metadata keys are trimmed when they are stored, so a token carries another key than requested, and two keys can become one',
    [(C + 'types/nft.rs', '''            tokens_metadata.insert_data(
                Some(self.token_id.clone()),
                key.clone(),
''', '''            tokens_metadata.insert_data(
                Some(self.token_id.clone()),
                key.trim().to_string(),
''')],
    '''
const n = new Nft();
n.mint([{ token_owner: acc(alice), metadata: [{ 0: 'k', 1: { Text: 'a' } }, { 0: 'k ', 1: { Text: 'b' } }] }]);
check(n.tokenMeta(1)[0].length === 2, 'of two metadata entries the token has ' + J(n.tokenMeta(1)[0]));
''')

bug('b25-clone-drops', 'C13', 'the setting atomic_batch_transfers given as false, and an upgrade',
    'the hand-written clone of the data made while upgrading turns the setting false into not set',
    [(C + 'state.rs', '            atomic_batch_transfers: self.atomic_batch_transfers.clone(),\n', '            atomic_batch_transfers: self.atomic_batch_transfers.filter(|on| *on),\n')],
    '''
const n = new Nft({ atomic_batch_transfers: false });
const before = J(n.get('icrc7_atomic_batch_transfers'));
n.upgrade();
check(J(n.get('icrc7_atomic_batch_transfers')) === before, 'the setting was ' + before + ' before the upgrade and is ' + J(n.get('icrc7_atomic_batch_transfers')) + ' after it');
''')

bug('b26-implied-permission', 'C36', 'a question about a principal that may manage authorities',
    'has_permission answers true for every permission of a principal that manages authorities, although the guards refuse it',
    [(C + 'updates/management.rs', '''            .has_permission(&args.principal, &args.permission)
''', '''            .has_permission(&args.principal, &args.permission)
            || state.data.permissions.has_permission(
                &args.principal,
                &crate::types::permissions::Permission::ManageAuthorities,
            )
''')],
    '''
const n = new Nft({}, [[admin, ALL], [bob, ['ManageAuthorities']]]);
check(J(n.has(bob, 'Minting')) === J({ Ok: false }), 'bob does not hold Minting, the answer is ' + J(n.has(bob, 'Minting')));
''')

bug('b28-own-subaccount', 'C42', 'a transfer between two subaccounts of one principal',
    'icrc7_transfer refuses a recipient with the principal of the owner, although it is another account',
    [(C + 'updates/icrc7.rs', '        || nft.token_owner == arg.to\n', '        || nft.token_owner.owner == arg.to.owner\n')],
    '''
const n = new Nft();
n.mintTo(acc(alice), 1);
const r = n.transfer([{ to: acc(alice, 1), token_id: 1 }], alice);
check(J(r).includes('Ok'), 'a transfer to a subaccount of the owner was refused: ' + J(r));
''')

bug('b29-revoke-dedup', 'C41', 'one call that revokes two approvals of the same token',
    'a second revocation of the same token in a call is dropped: it is neither executed nor answered',
    [(C + 'updates/icrc37.rs', '''    Ok(args
        .into_iter()
        .take(max_revoke_approvals)
        .map(|arg| {
            let current_time = ic_cdk::api::time();
            Some(revoke_token_approvals(arg, caller, current_time))
''', '''    let mut seen = std::collections::HashSet::new();
    Ok(args
        .into_iter()
        .take(max_revoke_approvals)
        .filter(|arg| seen.insert(arg.token_id.clone()))
        .map(|arg| {
            let current_time = ic_cdk::api::time();
            Some(revoke_token_approvals(arg, caller, current_time))
''')],
    '''
const n = new Nft();
n.mintTo(acc(alice), 1);
n.approveTokens([{ token_id: 1, spender: acc(bob) }, { token_id: 1, spender: acc(carol) }], alice);
n.rep.tick(1000000000);
n.revokeTokens([{ token_id: 1, spender: acc(bob) }, { token_id: 1, spender: acc(carol) }], alice);
check(n.isApproved(acc(bob), 1) === false, 'first revocation not executed');
check(n.isApproved(acc(carol), 1) === false, 'the second revocation of the call was not executed');
''')

bug('b31-revoke-all-default', 'C03', 'revoking all collection approvals of a subaccount',
    'revoking without naming a spender acts on the approvals of the default account of the caller, whatever subaccount the request names',
    [(C + 'updates/icrc37.rs', '''    let from_account = Account {
        owner: caller,
        subaccount: arg.from_subaccount,
    };

    let collection_approvals''', '''    let from_account = Account {
        owner: caller,
        subaccount: arg.from_subaccount.filter(|_| arg.spender.is_some()),
    };

    let collection_approvals''')],
    '''
const n = new Nft();
n.mintTo(acc(alice), 1);
n.approveCollection([{ spender: acc(bob) }], alice);
check(n.isApproved(acc(bob), 1) === true, 'not approved');
n.rep.tick(1000000000);
n.revokeCollection([{ from_subaccount: acc(alice, 1).subaccount }], alice);
check(n.isApproved(acc(bob), 1) === true, 'a revocation for a subaccount removed the approvals of the default account');
''')

bug('b34-take-wrap', 'C16', 'a take beyond 32 bits with a max_take_value below the default',
    'a take that does not fit in usize passes the limit test and is then replaced by the default, which may exceed max_take_value',
    [(C + 'queries/icrc7.rs', ''') -> icrc7::icrc7_tokens_of::Response {
    if take.is_some() {
        let icrc7_max_take_value = read_state(|state| state.data.max_take_value.clone());
        let max_take_value =
            icrc7_max_take_value.unwrap_or(Nat::from(icrc7::DEFAULT_MAX_TAKE_VALUE));

        if take.clone().unwrap().0 > max_take_value.0 {
''', ''') -> icrc7::icrc7_tokens_of::Response {
    if take.is_some() {
        let icrc7_max_take_value = read_state(|state| state.data.max_take_value.clone());
        let max_take_value =
            icrc7_max_take_value.unwrap_or(Nat::from(icrc7::DEFAULT_MAX_TAKE_VALUE));

        let wanted = take.clone().and_then(|t| usize::try_from(t.0).ok());
        if wanted.is_some_and(|t| Nat::from(t) > max_take_value) {
''')],
    '''
const n = new Nft({ max_take_value: 2 });
n.mintTo(acc(alice), 5);
let r;
try { r = n.tokensOf(acc(alice), null, 1n << 40n); } catch (e) { r = []; }
check(r.length <= 2, 'a page of ' + r.length + ' tokens with max_take_value 2');
''')
