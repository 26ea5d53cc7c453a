// A small replica: runs the canister wasm that build.sh produced in /repo/target, with the ic0 system API in JS.
import fs from 'fs';
import crypto from 'crypto';
import path from 'path';

export const CORE = path.join(process.cwd(), 'target/wasm32-unknown-unknown/release/core_nft.wasm');
export const INDEX = path.join(process.cwd(), 'target/wasm32-unknown-unknown/release/index_icrc7.wasm');

// ------------------------------------------------------------------ candid
const enc = new TextEncoder(), dec = new TextDecoder();
export function hash(s) { let h = 0; for (const b of enc.encode(s)) h = (Math.imul(h, 223) + b) >>> 0; return h; }
const names = new Map();
function key(s) { const h = hash(s); names.set(h, s); return h; }
for (const s of ('Ok Err owner subaccount GenericError GenericBatchError message error_code duplicate_of ledger_time Duplicate NonExistingTokenId Unauthorized ' +
  'CreatedInFuture TooOld InvalidRecipient InvalidSpender InvalidTokenId ApprovalDoesNotExist Nat Int Text Blob Array Map Nat64 log_length blocks archived_blocks id block args callback ' +
  'ConcurrentManagementCall ExceedMaxAllowedSupplyCap TokenAlreadyExists InvalidMemo StorageCanisterError NotTokenOwner TokenDoesNotExist DefaultError UserNotFound ' +
  'expires_at memo from_subaccount created_at_time spender token_id approval_info UploadNotFound UploadNotInitialized UploadAlreadyFinalized UploadNotStarted IncompleteUpload FileAlreadyExists ' +
  'url status_code headers body upgrade streaming_strategy block_type Init InProgress Finalized name last_block_id total value start length chunk_id chunk_data file_path canister_id ' +
  'Minting ManageAuthorities UpdateMetadata UpdateCollectionMetadata ReadUploads UpdateUploads ApprovalError TransferError certificate hash_tree generic_display_message metadata consent_message').split(' ')) key(s);
export class Principal {
  constructor(b) { this.b = Uint8Array.from(b); }
  static user(n) { const b = new Uint8Array(29); for (let i = 0; i < 28; i++) b[i] = (n * 31 + i * 7) & 255; b[0] = n; b[28] = 2; return new Principal(b); }
  static canister(n) { return new Principal([0, 0, 0, 0, 0, 0x10, 0, n, 1, 1]); }
  static anonymous() { return new Principal([4]); }
  static management() { return new Principal([]); }
  toString() { return Buffer.from(this.b).toString('hex'); }
  text() { const c = crc32(this.b); const all = Buffer.concat([Buffer.from([c >>> 24, (c >>> 16) & 255, (c >>> 8) & 255, c & 255]), Buffer.from(this.b)]); return b32(all).match(/.{1,5}/g).join('-'); }
  toJSON() { return 'p:' + this.toString(); }
}
function b32(b) { const A = 'abcdefghijklmnopqrstuvwxyz234567'; let o = '', v = 0, n = 0; for (const x of b) { v = (v << 8) | x; n += 8; while (n >= 5) { o += A[(v >>> (n - 5)) & 31]; n -= 5; v &= (1 << n) - 1; } } if (n) o += A[(v << (5 - n)) & 31]; return o; }
function crc32(b) { let c = ~0 >>> 0; for (const x of b) { c ^= x; for (let i = 0; i < 8; i++) c = (c >>> 1) ^ (0xEDB88320 & -(c & 1)); c >>>= 0; } return (~c) >>> 0; }
const prim = (code, w) => ({ code, w });
const leb = n => { n = BigInt(n); const o = []; do { let b = Number(n & 127n); n >>= 7n; if (n) b |= 128; o.push(b); } while (n); return o; };
const sleb = n => { n = BigInt(n); const o = []; for (;;) { const b = Number(n & 127n); n >>= 7n; if ((n === 0n && !(b & 64)) || (n === -1n && (b & 64))) { o.push(b); return o; } o.push(b | 128); } };
const le = (n, k) => { n = BigInt.asUintN(k * 8, BigInt(n)); const o = []; for (let i = 0; i < k; i++) { o.push(Number(n & 255n)); n >>= 8n; } return o; };
const bytes = s => [...leb(s.length), ...s];
export const T = {
  Null: prim(-1, () => []), Bool: prim(-2, v => [v ? 1 : 0]), Nat: prim(-3, v => leb(v)), Int: prim(-4, v => sleb(v)),
  Nat8: prim(-5, v => [v]), Nat16: prim(-6, v => le(v, 2)), Nat32: prim(-7, v => le(v, 4)), Nat64: prim(-8, v => le(v, 8)),
  Text: prim(-15, v => bytes(enc.encode(v))), Principal: prim(-24, v => [1, ...bytes(v.b)]),
  Opt: t => ({ k: 'opt', t, w: v => v === null || v === undefined ? [0] : [1, ...t.w(v)] }),
  Vec: t => ({ k: 'vec', t, w: v => [...leb(v.length), ...(t.code === -5 ? v : [].concat(...[...v].map(x => t.w(x))))] }),
  Rec: fs => { const l = Object.entries(fs).map(([n, t]) => [/^\d+$/.test(n) ? +n : key(n), n, t]).sort((a, b) => a[0] - b[0]); return { k: 'rec', l, w: v => [].concat(...l.map(([h, n, t]) => t.w(v[n]))) }; },
  Var: fs => { const l = Object.entries(fs).map(([n, t]) => [key(n), n, t]).sort((a, b) => a[0] - b[0]); return { k: 'var', l, w: v => { const n = typeof v === 'string' ? v : Object.keys(v)[0]; const i = l.findIndex(x => x[1] === n); return [...leb(i), ...l[i][2].w(v[n])]; } }; },
  Fix: f => { const o = {}; const t = f(o); Object.assign(o, t); return o; },
};
T.Blob = T.Vec(T.Nat8);
T.Account = T.Rec({ owner: T.Principal, subaccount: T.Opt(T.Blob) });
T.Value = T.Fix(v => T.Var({ Nat: T.Nat, Int: T.Int, Text: T.Text, Blob: T.Blob, Array: T.Vec(v), Map: T.Vec(T.Rec({ 0: T.Text, 1: v })) }));
export function encode(types, vals) {
  const table = [], idx = new Map();
  const ref = t => {
    if (t.code) return sleb(t.code);
    if (idx.has(t)) return sleb(idx.get(t));
    const i = table.length; idx.set(t, i); table.push(null);
    let b;
    if (t.k === 'opt') b = [...sleb(-18), ...ref(t.t)];
    else if (t.k === 'vec') b = [...sleb(-19), ...ref(t.t)];
    else b = [...sleb(t.k === 'rec' ? -20 : -21), ...leb(t.l.length), ...[].concat(...t.l.map(([h, n, x]) => [...leb(h), ...ref(x)]))];
    table[i] = b;
    return sleb(i);
  };
  const heads = types.map(ref);
  return Uint8Array.from([68, 73, 68, 76, ...leb(table.length), ...[].concat(...table), ...leb(types.length), ...[].concat(...heads), ...[].concat(...types.map((t, i) => t.w(vals[i])))]);
}
export function decode(buf) {
  let p = 4;
  const rleb = () => { let r = 0n, s = 0n; for (;;) { const b = buf[p++]; r |= BigInt(b & 127) << s; s += 7n; if (!(b & 128)) return r; } };
  const rsleb = () => { let r = 0n, s = 0n; for (;;) { const b = buf[p++]; r |= BigInt(b & 127) << s; s += 7n; if (!(b & 128)) return (b & 64) ? r - (1n << s) : r; } };
  const n = Number(rleb()), table = [];
  for (let i = 0; i < n; i++) {
    const c = Number(rsleb());
    if (c === -18 || c === -19) table.push([c, Number(rsleb())]);
    else if (c === -20 || c === -21) { const k = Number(rleb()); const l = []; for (let j = 0; j < k; j++) l.push([Number(rleb()), Number(rsleb())]); table.push([c, l]); }
    else if (c === -22) { for (let r = 0; r < 2; r++) { const k = Number(rleb()); for (let j = 0; j < k; j++) rsleb(); } const k = Number(rleb()); p += k; table.push([c]); }
    else throw new Error('type ' + c);
  }
  const m = Number(rleb()), ts = [];
  for (let i = 0; i < m; i++) ts.push(Number(rsleb()));
  const rle = k => { let r = 0n; for (let i = 0; i < k; i++) r |= BigInt(buf[p++]) << BigInt(8 * i); return r; };
  const nm = h => names.get(h) ?? (h < 100 ? String(h) : '_' + h);
  const val = t => {
    switch (t) {
      case -1: case -16: return null;
      case -2: return buf[p++] === 1;
      case -3: return rleb();
      case -4: return rsleb();
      case -5: return buf[p++];
      case -6: return Number(rle(2));
      case -7: return Number(rle(4));
      case -8: return rle(8);
      case -9: return Number(BigInt.asIntN(8, rle(1)));
      case -10: return Number(BigInt.asIntN(16, rle(2)));
      case -11: return Number(BigInt.asIntN(32, rle(4)));
      case -12: return BigInt.asIntN(64, rle(8));
      case -13: { const d = new DataView(buf.buffer, buf.byteOffset + p, 4).getFloat32(0, true); p += 4; return d; }
      case -14: { const d = new DataView(buf.buffer, buf.byteOffset + p, 8).getFloat64(0, true); p += 8; return d; }
      case -15: { const k = Number(rleb()); const s = dec.decode(buf.subarray(p, p + k)); p += k; return s; }
      case -24: { p++; const k = Number(rleb()); const s = new Principal(buf.subarray(p, p + k)); p += k; return s; }
    }
    const d = table[t];
    if (d[0] === -18) return buf[p++] ? val(d[1]) : null;
    if (d[0] === -19) { const k = Number(rleb()); if (d[1] === -5) { const s = buf.slice(p, p + k); p += k; return s; } const o = []; for (let i = 0; i < k; i++) o.push(val(d[1])); return o; }
    if (d[0] === -20) { const o = {}; for (const [h, x] of d[1]) o[nm(h)] = val(x); return o; }
    if (d[0] === -21) { const i = Number(rleb()); const [h, x] = d[1][i]; const v = val(x); return { [nm(h)]: v }; }
    if (d[0] === -22) { p++; p++; let k = Number(rleb()); const pr = new Principal(buf.subarray(p, p + k)); p += k; k = Number(rleb()); const s = dec.decode(buf.subarray(p, p + k)); p += k; return { func: s, canister: pr }; }
    throw new Error('value type ' + d);
  };
  return ts.map(val);
}
export function J(v) { return JSON.stringify(v, (k, x) => typeof x === 'bigint' ? Number(x) : x instanceof Uint8Array ? 'b:' + Buffer.from(x).toString('hex') : x); }

// ------------------------------------------------------------------ wasm preparation
function patchWasm(buf) {
  // export table 0 and global 0
  let p = 8; const out = [buf.subarray(0, 8)];
  const rd = () => { let r = 0, s = 0; for (;;) { const b = buf[p++]; r |= (b & 127) << s; s += 7; if (!(b & 128)) return r >>> 0; } };
  while (p < buf.length) {
    const st = p, id = buf[p++], len = rd(), body = p;
    if (id === 7) {
      const n = rd();
      const rest = buf.subarray(p, body + len);
      const ex = Buffer.from([...bytes(enc.encode('__tbl')), 1, 0, ...bytes(enc.encode('__sp')), 3, 0]);
      const nb = Buffer.concat([Buffer.from(leb(n + 2)), rest, ex]);
      out.push(Buffer.from([7, ...leb(nb.length)]), nb);
    } else out.push(buf.subarray(st, body + len));
    p = body + len;
  }
  return Buffer.concat(out);
}
const modules = new Map();
function load(file) { if (!modules.has(file)) modules.set(file, new WebAssembly.Module(patchWasm(fs.readFileSync(file)))); return modules.get(file); }

class Trap extends Error { }

// ------------------------------------------------------------------ replica
export class Replica {
  constructor() { this.time = 1_700_000_000_000_000_000n; this.can = new Map(); this.mocks = new Map(); this.queue = []; this.log = []; this.hold = null; }
  tick(ns) { this.time += BigInt(ns); }
  // mock of a remote canister method: (method, argBytes, caller) -> {reply: bytes} | {reject: msg}
  mock(principal, fn) { this.mocks.set(principal.toString(), fn); }
  create(id, file, argBytes, caller) { const c = new Canister(this, id, file); this.can.set(id.toString(), c); c.install(argBytes, caller); return c; }
  // deliver pending inter-canister calls; hold(call) -> true keeps the call pending
  pump() {
    for (let g = 0; g < 20000; g++) {
      const i = this.queue.findIndex(c => !(this.hold && this.hold(c)));
      if (i < 0) return;
      const c = this.queue.splice(i, 1)[0];
      this.deliver(c);
    }
    throw new Error('message loop');
  }
  deliver(c) {
    const t = this.can.get(c.callee.toString());
    const done = r => c.from.callback(c, r);
    if (t) return t.start('update', c.method, c.arg, c.from.id, done);
    const m = this.mocks.get(c.callee.toString());
    let r = { reject: 'no such canister ' + c.callee.text(), code: 3 };
    if (m) r = m(c.method, c.arg, c.from.id) ?? r;
    done(r);
  }
}
export class Canister {
  constructor(rep, id, file) {
    this.rep = rep; this.id = id; this.stable = Buffer.alloc(0); this.timer = 0n; this.certified = new Uint8Array(0); this.cycles = 1n << 100n; this.version = 1n; this.controllers = []; this.load(file);
  }
  load(file) {
    this.file = file; this.cur = null;
    const self = this, mem = () => new Uint8Array(this.inst.exports.memory.buffer);
    const put = (dst, b, off, n) => mem().set(b.subarray(off, off + n), dst);
    const get = (src, n) => mem().slice(src, src + n);
    const num = x => Number(x);
    const put128 = (dst, v) => new DataView(this.inst.exports.memory.buffer).setBigUint64(dst, BigInt.asUintN(64, v), true) ?? new DataView(this.inst.exports.memory.buffer).setBigUint64(dst + 8, v >> 64n, true);
    const api = {
      time: () => this.rep.time, global_timer_set: t => { const o = this.timer; this.timer = BigInt.asUintN(64, t); return o; },
      data_certificate_present: () => this.cur.kind === 'query' ? 1 : 0, data_certificate_size: () => 4, data_certificate_copy: (d, o, n) => put(d, Uint8Array.from([1, 2, 3, 4]), o, n),
      stable64_size: () => BigInt(this.stable.length >> 16),
      stable64_grow: n => { const o = this.stable.length >> 16; this.stable = Buffer.concat([this.stable, Buffer.alloc(num(n) << 16)]); return BigInt(o); },
      stable64_write: (o, s, n) => { this.stable.set(get(num(s), num(n)), num(o)); }, stable64_read: (d, o, n) => { mem().set(this.stable.subarray(num(o), num(o) + num(n)), num(d)); },
      canister_cycle_balance128: d => { put128(d, this.cycles); }, canister_liquid_cycle_balance128: d => { put128(d, this.cycles); },
      debug_print: (s, n) => { if (process.env.SIM_DEBUG) console.error('[dbg]', dec.decode(get(s, n))); },
      certified_data_set: (s, n) => { this.certified = get(s, n); },
      msg_arg_data_size: () => this.cur.arg.length, msg_arg_data_copy: (d, o, n) => put(d, this.cur.arg, o, n),
      msg_caller_size: () => this.cur.caller.b.length, msg_caller_copy: (d, o, n) => put(d, this.cur.caller.b, o, n),
      msg_reject_code: () => this.cur.rejectCode ?? 0, msg_reject_msg_size: () => (this.cur.rejectMsg ?? new Uint8Array(0)).length, msg_reject_msg_copy: (d, o, n) => put(d, this.cur.rejectMsg, o, n),
      msg_reply_data_append: (s, n) => { this.cur.ctx.data.push(...get(s, n)); }, msg_reply: () => { this.reply({ reply: Uint8Array.from(this.cur.ctx.data) }); },
      msg_reject: (s, n) => { this.reply({ reject: dec.decode(get(s, n)), code: 4 }); },
      canister_self_size: () => this.id.b.length, canister_self_copy: (d, o, n) => put(d, this.id.b, o, n), canister_version: () => this.version,
      trap: (s, n) => { throw new Trap(dec.decode(get(s, n))); },
      is_controller: (s, n) => this.controllers.some(c => Buffer.compare(Buffer.from(c.b), Buffer.from(get(s, n))) === 0) ? 1 : 0,
      in_replicated_execution: () => this.cur.kind === 'query' ? 0 : 1, performance_counter: () => 0n,
      call_new: (cs, cn, ns, nn, rf, re, jf, je) => { this.call = { callee: new Principal(get(cs, cn)), method: dec.decode(get(ns, nn)), rf, re, jf, je, arg: [], cycles: 0n, from: this, ctx: this.cur.ctx }; },
      call_data_append: (s, n) => { this.call.arg.push(...get(s, n)); }, call_cycles_add128: (h, l) => { this.call.cycles = (BigInt.asUintN(64, h) << 64n) | BigInt.asUintN(64, l); },
      call_on_cleanup: (f, e) => { this.call.cf = f; this.call.ce = e; }, call_with_best_effort_response: () => { },
      call_perform: () => { this.call.arg = Uint8Array.from(this.call.arg); this.cur.calls.push(this.call); this.call = null; return 0; },
      cost_call: (a, b, d) => { put128(d, 1000000n); },
    };
    const mod = load(file), imp = {};
    for (const i of WebAssembly.Module.imports(mod)) imp[i.name] = api[i.name] ?? (() => { throw new Trap('ic0.' + i.name + ' not provided'); });
    this.inst = new WebAssembly.Instance(mod, { ic0: imp });
    this.has = new Set(WebAssembly.Module.exports(mod).map(e => e.name));
    this.tbl = this.inst.exports.__tbl; this.sp = this.inst.exports.__sp;
  }
  reply(r) { if (this.cur.ctx.replied) throw new Trap('already replied'); this.cur.ctx.replied = true; this.cur.out = r; }
  snap() { return [new Uint8Array(this.inst.exports.memory.buffer).slice(), this.sp ? this.sp.value : 0, Buffer.from(this.stable), this.timer, this.certified]; }
  restore(s) { const m = new Uint8Array(this.inst.exports.memory.buffer); m.set(s[0]); m.fill(0, s[0].length); if (this.sp) this.sp.value = s[1]; this.stable = s[2]; this.timer = s[3]; this.certified = s[4]; }
  // run one message; commits or rolls back
  exec(kind, ctx, arg, caller, fn, extra = {}) {
    const s = this.snap();
    this.cur = { kind, ctx, arg, caller, calls: [], ...extra };
    const replied = ctx.replied;
    let err = null;
    try { fn(); } catch (e) { if (!(e instanceof Trap) && !(e instanceof WebAssembly.RuntimeError) && !(e instanceof RangeError)) throw e; err = e; }
    const cur = this.cur; this.cur = null;
    if (err || kind === 'query') this.restore(s);
    if (err) { ctx.replied = replied; return { trap: String(err.message) }; }
    if (kind !== 'query') for (const c of cur.calls) { ctx.open++; this.rep.queue.push(c); }
    return { out: cur.out };
  }
  must(r) { if (r.trap) throw new Error('trap: ' + r.trap); }
  install(arg, caller) { this.controllers = [caller]; this.must(this.exec('init', this.ctx(), arg, caller, () => this.inst.exports.canister_init())); this.rep.pump(); }
  upgrade(file, arg, caller) {
    this.must(this.exec('init', this.ctx(), new Uint8Array(0), caller, () => this.inst.exports.canister_pre_upgrade()));
    this.timer = 0n;
    this.load(file);
    this.must(this.exec('init', this.ctx(), arg, caller, () => this.inst.exports.canister_post_upgrade()));
    this.rep.pump();
  }
  ctx(done) { return { done, data: [], replied: false, open: 0 }; }
  start(kind, method, arg, caller, done) {
    const ctx = this.ctx(done);
    const name = (kind === 'query' || !this.has.has('canister_update ' + method) ? 'canister_query ' : 'canister_update ') + method;
    if (!this.has.has(name)) return done({ reject: 'no method ' + method, code: 3 });
    const r = this.exec(kind, ctx, arg, caller, () => this.inst.exports[name]());
    this.finish(ctx, r);
  }
  finish(ctx, r) {
    if (r.out) { if (ctx.done) ctx.done(r.out); return; }
    if (ctx.replied) return;
    if (r.trap && ctx.open === 0) { ctx.replied = true; if (ctx.done) ctx.done({ reject: r.trap, code: 5, trap: r.trap }); } else if (r.trap) ctx.lastTrap = r.trap;
    else if (ctx.open === 0 && ctx.done) { ctx.replied = true; ctx.done({ reject: 'did not reply: ' + (ctx.lastTrap ?? ''), code: 5 }); }
  }
  callback(c, r) {
    const ctx = c.ctx; ctx.open--;
    const ok = r.reply !== undefined;
    const caller = ctx.caller ?? c.callee;
    const res = this.exec('update', ctx, ok ? r.reply : new Uint8Array(0), caller, () => this.tbl.get(ok ? c.rf : c.jf)(ok ? c.re : c.je), ok ? {} : { rejectCode: r.code ?? 4, rejectMsg: enc.encode(r.reject) });
    if (res.trap && c.cf !== undefined) this.exec('update', ctx, new Uint8Array(0), caller, () => this.tbl.get(c.cf)(c.ce));
    this.finish(ctx, res);
  }
  // asynchronous: returns a handle filled in when the call is answered
  send(method, types, vals, caller) {
    const h = { done: false };
    this.start('update', method, types instanceof Uint8Array ? types : encode(types, vals), caller, r => { h.done = true; h.r = r; });
    return h;
  }
  update(method, types, vals, caller) { const h = this.send(method, types, vals, caller); this.rep.pump(); return unwrap(method, h); }
  query(method, types, vals, caller = Principal.anonymous()) {
    const h = { done: false };
    this.start('query', method, encode(types, vals), caller, r => { h.done = true; h.r = r; });
    return unwrap(method, h);
  }
  fire() { // run due timers
    for (let g = 0; g < 50; g++) {
      if (!this.timer || this.timer > this.rep.time) return;
      this.timer = 0n;
      const ctx = this.ctx();
      const r = this.exec('update', ctx, new Uint8Array(0), Principal.management(), () => this.inst.exports.canister_global_timer());
      if (r.trap) throw new Error('timer trap: ' + r.trap);
      this.rep.pump();
    }
  }
}
export class Rejected extends Error { }
export function unwrap(method, h) {
  if (!h.done) throw new Error(method + ': no answer');
  if (h.r.reply === undefined) throw new Rejected(method + ' rejected: ' + h.r.reject);
  return decode(h.r.reply)[0];
}
export function check(c, msg) { if (!c) { console.log('FAIL: ' + msg); process.exit(1); } }
export function rejected(f) { try { f(); return false; } catch (e) { if (e instanceof Rejected) return true; throw e; } }

// ------------------------------------------------------------------ the NFT canister
const P = T.Var({ Minting: T.Null, ManageAuthorities: T.Null, UpdateMetadata: T.Null, UpdateCollectionMetadata: T.Null, ReadUploads: T.Null, UpdateUploads: T.Null });
export const Perm = P;
const Version = T.Rec({ major: T.Nat32, minor: T.Nat32, patch: T.Nat32 });
const InitT = T.Rec({
  test_mode: T.Bool, version: Version, commit_hash: T.Text, permissions: T.Rec({ user_permissions: T.Vec(T.Rec({ 0: T.Principal, 1: T.Vec(P) })) }),
  description: T.Opt(T.Text), symbol: T.Text, name: T.Text, logo: T.Opt(T.Text), supply_cap: T.Opt(T.Nat), max_query_batch_size: T.Opt(T.Nat), max_update_batch_size: T.Opt(T.Nat),
  max_take_value: T.Opt(T.Nat), default_take_value: T.Opt(T.Nat), max_memo_size: T.Opt(T.Nat), atomic_batch_transfers: T.Opt(T.Bool), tx_window: T.Opt(T.Nat), permitted_drift: T.Opt(T.Nat),
  max_canister_storage_threshold: T.Opt(T.Nat), collection_metadata: T.Vec(T.Rec({ 0: T.Text, 1: T.Value })),
  approval_init: T.Rec({ max_approvals_per_token_or_collection: T.Opt(T.Nat), max_revoke_approvals: T.Opt(T.Nat) }),
});
const UpgT = T.Rec({ version: Version, commit_hash: T.Text });
const ArgsT = T.Var({ Init: InitT, Upgrade: UpgT });
export const ALL = ['Minting', 'ManageAuthorities', 'UpdateMetadata', 'UpdateCollectionMetadata', 'ReadUploads', 'UpdateUploads'];
const wrapP = l => l.map(x => ({ [x]: null }));
export function initArgs(over = {}, perms = []) {
  return encode([ArgsT], [{ Init: {
    test_mode: false, version: { major: 1, minor: 0, patch: 0 }, commit_hash: 'c0', permissions: { user_permissions: perms.map(([p, l]) => ({ 0: p, 1: wrapP(l) })) },
    symbol: 'SYM', name: 'Name', collection_metadata: [], approval_init: {}, ...over } }]);
}
export function upgradeArgs() { return encode([ArgsT], [{ Upgrade: { version: { major: 1, minor: 0, patch: 1 }, commit_hash: 'c1' } }]); }
export const acc = (p, sub) => ({ owner: p, subaccount: sub === undefined ? null : (() => { const b = new Uint8Array(32); b[31] = sub; return b; })() });
export const admin = Principal.user(1), alice = Principal.user(2), bob = Principal.user(3), carol = Principal.user(4), dave = Principal.user(5);
export const N = BigInt;
const TransferT = T.Vec(T.Rec({ to: T.Account, token_id: T.Nat, memo: T.Opt(T.Blob), from_subaccount: T.Opt(T.Blob), created_at_time: T.Opt(T.Nat64) }));
const ApprI = T.Rec({ memo: T.Opt(T.Blob), from_subaccount: T.Opt(T.Blob), created_at_time: T.Nat64, expires_at: T.Opt(T.Nat64), spender: T.Account });
export class Nft {
  constructor(over = {}, perms, rep) {
    this.rep = rep ?? new Replica(); this.id = Principal.canister(1);
    this.c = this.rep.create(this.id, CORE, initArgs(over, perms ?? [[admin, ALL]]), admin);
  }
  upgrade() { this.c.upgrade(CORE, upgradeArgs(), admin); }
  mint(reqs, caller = admin) { return this.c.update('mint', [T.Rec({ mint_requests: T.Vec(T.Rec({ token_owner: T.Account, memo: T.Opt(T.Blob), metadata: T.Vec(T.Rec({ 0: T.Text, 1: T.Value })) })) })], [{ mint_requests: reqs.map(r => ({ metadata: [], ...r })) }], caller); }
  mintTo(a, n = 1) { return this.mint(Array.from({ length: n }, () => ({ token_owner: a, metadata: [{ 0: 'k', 1: { Text: 'v' } }] }))); }
  transfer(l, caller) { return this.c.update('icrc7_transfer', [TransferT], [l], caller); }
  transferFrom(l, caller) { return this.c.update('icrc37_transfer_from', [T.Vec(T.Rec({ spender_subaccount: T.Opt(T.Blob), from: T.Account, to: T.Account, token_id: T.Nat, memo: T.Opt(T.Blob), created_at_time: T.Opt(T.Nat64) }))], [l], caller); }
  approveTokens(l, caller) { return this.c.update('icrc37_approve_tokens', [T.Vec(T.Rec({ token_id: T.Nat, approval_info: ApprI }))], [l.map(x => ({ token_id: x.token_id, approval_info: { created_at_time: this.rep.time, ...x } }))], caller); }
  approveCollection(l, caller) { return this.c.update('icrc37_approve_collection', [T.Vec(T.Rec({ approval_info: ApprI }))], [l.map(x => ({ approval_info: { created_at_time: this.rep.time, ...x } }))], caller); }
  revokeTokens(l, caller) { return this.c.update('icrc37_revoke_token_approvals', [T.Vec(T.Rec({ spender: T.Opt(T.Account), from_subaccount: T.Opt(T.Blob), token_id: T.Nat, memo: T.Opt(T.Blob), created_at_time: T.Opt(T.Nat64) }))], [l], caller); }
  revokeCollection(l, caller) { return this.c.update('icrc37_revoke_collection_approvals', [T.Vec(T.Rec({ spender: T.Opt(T.Account), from_subaccount: T.Opt(T.Blob), memo: T.Opt(T.Blob), created_at_time: T.Opt(T.Nat64) }))], [l], caller); }
  burn(id, caller) { return this.c.update('burn_nft', [T.Nat], [id], caller); }
  setMeta(id, m, caller = admin) { return this.c.update('update_nft_metadata', [T.Rec({ token_id: T.Nat, metadata: T.Vec(T.Rec({ 0: T.Text, 1: T.Value })) })], [{ token_id: id, metadata: m }], caller); }
  updateCollection(o, caller = admin) { return this.c.update('update_collection_metadata', [T.Rec({ description: T.Opt(T.Text), symbol: T.Opt(T.Text), name: T.Opt(T.Text), logo: T.Opt(T.Text), supply_cap: T.Opt(T.Nat), max_query_batch_size: T.Opt(T.Nat), max_update_batch_size: T.Opt(T.Nat), max_take_value: T.Opt(T.Nat), default_take_value: T.Opt(T.Nat), max_memo_size: T.Opt(T.Nat), atomic_batch_transfers: T.Opt(T.Bool), tx_window: T.Opt(T.Nat), permitted_drift: T.Opt(T.Nat), max_canister_storage_threshold: T.Opt(T.Nat) })], [o], caller); }
  grant(p, perm, caller = admin) { return this.c.update('grant_permission', [T.Rec({ principal: T.Principal, permission: P })], [{ principal: p, permission: { [perm]: null } }], caller); }
  revoke(p, perm, caller = admin) { return this.c.update('revoke_permission', [T.Rec({ principal: T.Principal, permission: P })], [{ principal: p, permission: { [perm]: null } }], caller); }
  has(p, perm, caller = admin) { return this.c.query('has_permission', [T.Rec({ principal: T.Principal, permission: P })], [{ principal: p, permission: { [perm]: null } }], caller); }
  perms(p, caller = admin) { return this.c.query('get_user_permissions', [T.Rec({ principal: T.Principal })], [{ principal: p }], caller); }
  ownerOf(...ids) { return this.c.query('icrc7_owner_of', [T.Vec(T.Nat)], [ids]); }
  owner(id) { const a = this.ownerOf(id)[0]; return a && a.owner.toString(); }
  balance(a) { return this.c.query('icrc7_balance_of', [T.Vec(T.Account)], [[a]])[0]; }
  tokensOf(a, prev, take) { return this.c.query('icrc7_tokens_of', [T.Account, T.Opt(T.Nat), T.Opt(T.Nat)], [a, prev, take]); }
  tokens(prev, take) { return this.c.query('icrc7_tokens', [T.Opt(T.Nat), T.Opt(T.Nat)], [prev, take]); }
  tokenMeta(...ids) { return this.c.query('icrc7_token_metadata', [T.Vec(T.Nat)], [ids]); }
  tokenApprovals(id, prev, take) { return this.c.query('icrc37_get_token_approvals', [T.Nat, T.Opt(T.Nat), T.Opt(T.Nat)], [id, prev, take]); }
  collectionApprovals(a, prev, take) { return this.c.query('icrc37_get_collection_approvals', [T.Account, T.Opt(T.Nat), T.Opt(T.Nat)], [a, prev, take]); }
  isApproved(spender, id, from_subaccount) { return this.c.query('icrc37_is_approved', [T.Vec(T.Rec({ spender: T.Account, from_subaccount: T.Opt(T.Blob), token_id: T.Nat }))], [[{ spender, from_subaccount, token_id: id }]])[0]; }
  meta() { const o = {}; for (const e of this.c.query('icrc7_collection_metadata', [], [])) o[e[0]] = e[1]; return o; }
  get(m) { return this.c.query(m, [], []); }
  supply() { return this.get('icrc7_total_supply'); }
  blocks(start = 0, length = 1000) { return this.c.query('icrc3_get_blocks', [T.Vec(T.Rec({ start: T.Nat, length: T.Nat }))], [[{ start, length }]]); }
  // decoded blocks: [{btype, ts, tx:{...}}]
  log() { return this.blocks().blocks.map(b => ({ id: b.id, ...plain(b.block) })); }
  http(url, method = 'GET') { return this.c.query('http_request', [T.Rec({ url: T.Text, method: T.Text, body: T.Blob, headers: T.Vec(T.Rec({ 0: T.Text, 1: T.Text })), certificate_version: T.Opt(T.Nat16) })], [{ url, method, body: [], headers: [], certificate_version: null }]); }
}
export function plain(v) {
  if (v === null || typeof v !== 'object') return v;
  const k = Object.keys(v)[0];
  if (k === 'Map') { const o = {}; for (const e of v.Map) o[e[0]] = plain(e[1]); return o; }
  if (k === 'Array') return v.Array.map(plain);
  if (k === 'Blob') return Buffer.from(v.Blob).toString('hex');
  return v[k];
}
