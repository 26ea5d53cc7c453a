"""Source of properties.jsonl, MANIFEST.json (run: python3 tools/props.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level_note='', technique=''):
    assert len(title) <= 80, id
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, level_note=level_note, technique=technique))


S = 'src/core_nft/src/'
MG = S + 'updates/management.rs'
I7 = S + 'updates/icrc7.rs'
I37 = S + 'updates/icrc37.rs'
TESTS = 'The unit tests cover encodings and small helpers only; the integration tests (which need a replica and are not in the stable set) sample a few call sequences with fixed arguments.'

BASE_NOTE = 'Sound over the explored graph: all branches, both outcomes of every external call, loops abstracted to one arbitrary element; runtime values are symbolic terms. Trusts the std / ic-cdk / stable-structures summaries in an/models.py and the nightly compiler\'s MIR.'

prop('C01', 'Management operations require their permission',
     'No caller that lacks the permission a management operation requires can make that operation change state, call another canister or answer with data; every other update method open to the public changes only what its token-holder rules (C02, C03) allow.',
     ['inputs', 'histories', 'configurations'], 'every caller, argument and permission-map content, for every exported update method',
     'Tests call with the one authorised principal; they cannot show that no other caller, method or branch reaches an effect.',
     [S + 'guards.rs', MG, S + 'types/permissions.rs'],
     [('permission guards', S + 'guards.rs'), ('permission lookup', S + 'types/permissions.rs')],
     technique='path-sensitive dominance (MIR product exploration)')
prop('C02', 'A token changes hands or disappears only on its owner\'s authority',
     'The owner of an existing token changes, or the token disappears, only in a call whose caller is the current owner of that token or - for a transfer on behalf - holds an unexpired approval for that token given by its current owner or an unexpired collection approval of its current owner; the spender is the account made of the caller and the spender subaccount of the request. The new owner is the recipient named in that same request.',
     ['inputs', 'histories'], 'every caller, batch, token table, approval table and clock value, for every exported method',
     'Tests sample a handful of callers and one- or two-element batches; authority must hold for every element of every batch under every approval state.',
     [I7, I37, MG, S + 'types/nft.rs'],
     [('owner comparison before transfer/burn', S + 'updates/icrc7.rs, updates/management.rs'), ('approval check of transfer_from', I37)],
     technique='branch-condition entailment at every owner write')
prop('C03', 'Approvals are created and revoked only by the owner',
     'A token approval is added or revoked only by a call of the current owner of that token - the account made of the caller and the subaccount named in the request -, and a collection approval only by the account that grants it; what is stored is the spender and expiry of the request. Other removals concern only expired approvals, a token that changes hands, or an account that no longer owns a token.',
     ['inputs', 'histories'], 'every caller, request and approval table, for every exported method',
     TESTS + ' None settles which approvals survive or appear for arbitrary tables.',
     [I37, S + 'types/wrapped_types.rs', S + 'memory.rs'],
     [('ownership test in approve / revoke', I37), ('house-keeping of expired approvals', I37)],
     technique='branch-condition entailment at every approval write')
prop('C04', 'Ledger state changes only after its block is appended',
     'Every change of token ownership, token metadata, owner listing, id counter or approvals made by a token operation happens only after a block about that same token (or account) has been appended successfully in the same call; a mint batch is stored only when the blocks of all its requests were appended. No other exported method changes that state.',
     ['inputs', 'fault_sequences', 'histories'], 'every request and every outcome of every append',
     'Append failures do not occur in the tests, and no test covers each method, branch and loop position where one could.',
     [I7, I37, MG, S + 'state.rs'],
     [('append before write in each operation', 'updates/icrc7.rs, updates/icrc37.rs, updates/management.rs')],
     technique='must-analysis over paths and loop iterations')
prop('C05', 'Blocks state what was requested and done',
     'Each appended block carries the block type of the operation, the current time, and - where the operation has them - the token, the previous owner, the new owner, spender, expiry, memo and creation time of the very request being executed. No other exported method appends blocks.',
     ['inputs', 'histories'], 'every request, for every block construction reaching the log',
     TESTS + ' No test compares all fields of all block types with the request.',
     [I7, I37, MG, S + 'types/transaction.rs'],
     [('transaction construction per operation', 'updates/icrc7.rs, updates/icrc37.rs, updates/management.rs')],
     technique='symbolic data-flow of every logged block')
prop('C06', 'A block that was appended is always applied',
     'Once an operation has appended a block it performs the recorded change before it looks at the next request, suspends or answers; a mint batch that appended any block either stores every requested token and advances the id counter or traps.',
     ['inputs', 'fault_sequences'], 'every request, batch position and append outcome',
     'Needs an error or early exit between append and write at every position of a batch, which the tests never produce.',
     [I7, I37, MG],
     [('apply after append in each operation', 'updates/icrc7.rs, updates/icrc37.rs, updates/management.rs')],
     technique='pairing analysis (append / apply) over all paths')
prop('C07', 'Minted ids are fresh and the supply cap holds',
     'Every minted token gets an id that no token ever had before, whatever was burnt in between and never the id 0 that stands for the collection, and no mint call logs or stores anything unless the existing tokens plus the whole batch stay within the supply cap.',
     ['inputs', 'histories'], 'every batch size, cap and mint / burn history',
     'Freshness is a statement about all mint / burn histories; tests mint a few tokens.',
     [MG, S + 'state.rs'],
     [('id counter', MG), ('supply cap test', MG)],
     state=[('id counter', 'next id to mint', S + 'state.rs')],
     technique='data-flow of the id counter and dominance of the cap test')
prop('C08', 'The owner listing agrees with the token table',
     'Whenever a token gets an owner it is listed under that owner, whenever it loses one it is unlisted there, both start empty, no token is listed twice, and the listing changes in no other way, so that tokens-of and balance queries agree with owner-of.',
     ['inputs', 'histories'], 'every request and history of mint, transfer, transfer on behalf and burn',
     'The listing is a second copy of the ownership relation; agreement after every history cannot be sampled.',
     [I7, I37, MG, S + 'state.rs', S + 'types/nft.rs'],
     [('paired updates of table and listing', 'updates/icrc7.rs, updates/icrc37.rs, updates/management.rs')],
     technique='pairing analysis of writes per path and loop element')
prop('C09', 'Approvals of a token end when it changes owner',
     'Whenever an existing token changes owner or is burnt, all approvals of that token are dropped in the same call.',
     ['inputs', 'histories'], 'every path of every exported method that changes or removes an owner',
     'Needs the combination approve - transfer by another route - use of the stale approval, for each transfer route.',
     [I7, I37, MG],
     [('dropping token approvals', 'updates/icrc7.rs, updates/icrc37.rs, updates/management.rs')],
     technique='pairing analysis of writes per path')
prop('C10', 'Management operations are mutually exclusive',
     'While a management update that suspends on another canister is in progress no second management update performs any effect, and every way of ending an operation releases the exclusion so later operations are not blocked.',
     ['schedules', 'inputs', 'fault_sequences'], 'every interleaving of management calls at their suspension points and every return path',
     'Tests are sequential; interleavings at await points and error exits holding the guard are not produced.',
     [S + 'guards.rs', MG],
     [('management guard', S + 'guards.rs')],
     technique='typestate analysis of the guard over all paths')
prop('C30', 'The permission map changes only as requested',
     'The permissions of a principal change only by the grant and revoke operations, only for the principal named in the request, and by exactly the permission named in it. They start as given at install, plus the installer\'s in test mode only.',
     ['inputs', 'histories'], 'every request and permission map, for every exported method',
     TESTS,
     [MG, S + 'types/permissions.rs'],
     [('grant / revoke', S + 'types/permissions.rs')],
     technique='effect analysis of every exported method')

LN = {}


def main():
    sys.path.insert(0, os.path.join(ROOT, 'an'))
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P + NA_P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                            'observe_at': list(p['observe']), 'hook_needed': None}}, ensure_ascii=False) + '\n')
    m = {'version': 1, 'setup_cmd': 'bash extract.sh', 'checks': [], 'not_applicable': []}
    for p in P:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 an/check.py %s' % p['id'],
                            'thorough_cmd': 'python3 an/check.py %s --tier thorough' % p['id'],
                            'technique': p['technique'], 'level': 'other',
                            'level_note': p['level_note'] or BASE_NOTE})
    for p in NA_P:
        m['not_applicable'].append({'property': p['id'], 'reason': p['reason']})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


NA_P = []
if os.path.exists(os.path.join(ROOT, 'tools', 'props2.py')):
    exec(open(os.path.join(ROOT, 'tools', 'props2.py')).read())
if __name__ == '__main__':
    main()
