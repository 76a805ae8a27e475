// Candid argument types of the canisters, and conversion of the JSON arguments used in traces.
import { T, encode } from './candid.mjs';
import { unhex } from './ic.mjs';

const ob = T.opt(T.blob), on = T.opt(T.nat), on64 = T.opt(T.nat64);
export const Account = T.record({ owner: T.principal, subaccount: ob });
const SubnetSel = T.variant({ Subnet: T.record({ subnet: T.principal }), Filter: T.record({ subnet_type: T.opt(T.text) }) });
const EnvVar = T.record({ name: T.text, value: T.text });
const LogVis = T.variant({ controllers: T.null, public: T.null, allowed_viewers: T.vec(T.principal) });
const Settings = T.record({ controllers: T.opt(T.vec(T.principal)), compute_allocation: on, memory_allocation: on, freezing_threshold: on,
  reserved_cycles_limit: on, wasm_memory_limit: on, wasm_memory_threshold: on, log_visibility: T.opt(LogVis), environment_variables: T.opt(T.vec(EnvVar)) });
export const CmcArgs = T.record({ settings: T.opt(Settings), subnet_selection: T.opt(SubnetSel) });
export const CmcError = T.variant({ Refunded: T.record({ refund_amount: T.nat, create_error: T.text }), RefundFailed: T.record({ create_error: T.text, refund_error: T.text }) });
export const CmcResult = T.variant({ Ok: T.principal, Err: CmcError });
const Init = T.record({ max_blocks_per_request: T.nat64, index_id: T.opt(T.principal), initial_balances: T.opt(T.vec(T.tuple(Account, T.nat))) });
const Upg = T.record({ max_blocks_per_request: on64, change_index_id: T.opt(T.variant({ Unset: T.null, SetTo: T.principal })) });
export const LedgerArgs = T.variant({ Init, Upgrade: T.opt(Upg) });
export const OptLedgerArgs = T.opt(LedgerArgs);
export const GetBlocks = T.vec(T.record({ start: T.nat, length: T.nat }));
export const AllowanceArgs = T.record({ account: Account, spender: Account });
export const GetAllowances = T.record({ from_account: T.opt(Account), prev_spender: T.opt(Account), take: on });
export const Http = T.record({ url: T.text, method: T.text, body: T.blob, headers: T.vec(T.tuple(T.text, T.text)) });
export const GetArchives = T.record({ from: T.opt(T.principal) });
export const CreateCanisterResult = T.record({ canister_id: T.principal });
const REQ = {
  deposit: T.record({ to: Account, memo: ob }),
  icrc1_transfer: T.record({ from_subaccount: ob, to: Account, amount: T.nat, fee: on, memo: ob, created_at_time: on64 }),
  icrc2_transfer_from: T.record({ spender_subaccount: ob, from: Account, to: Account, amount: T.nat, fee: on, memo: ob, created_at_time: on64 }),
  icrc2_approve: T.record({ from_subaccount: ob, spender: Account, amount: T.nat, expected_allowance: on, expires_at: on64, fee: on, memo: ob, created_at_time: on64 }),
  withdraw: T.record({ amount: T.nat, from_subaccount: ob, to: T.principal, created_at_time: on64 }),
  withdraw_from: T.record({ spender_subaccount: ob, from: Account, to: T.principal, amount: T.nat, created_at_time: on64 }),
  create_canister: T.record({ from_subaccount: ob, created_at_time: on64, amount: T.nat, creation_args: T.opt(CmcArgs) }),
  create_canister_from: T.record({ from: Account, spender_subaccount: ob, created_at_time: on64, amount: T.nat, creation_args: T.opt(CmcArgs) }),
};
const DEP = T.record({ cycles: T.nat, to: Account, memo: ob });
export const DepInit = T.record({ ledger_id: T.principal });

// JSON forms: principal = hex, account = [hex, subhex|null], nat = decimal string, blob = hex
export const acc = (a) => ({ owner: unhex(a[0]), subaccount: a[1] === null ? null : unhex(a[1]) });
const B = (h) => h === null || h === undefined ? null : unhex(h);
const N = (s) => s === null || s === undefined ? null : BigInt(s);
export function cmcArgs(x) {
  if (!x) return null;
  const st = x.settings;
  return {
    settings: st ? {
      controllers: st.controllers ? st.controllers.map(unhex) : null,
      compute_allocation: N(st.compute_allocation), memory_allocation: N(st.memory_allocation), freezing_threshold: N(st.freezing_threshold),
      reserved_cycles_limit: N(st.reserved_cycles_limit), wasm_memory_limit: N(st.wasm_memory_limit), wasm_memory_threshold: N(st.wasm_memory_threshold),
      log_visibility: st.log_visibility ? (Array.isArray(st.log_visibility) ? { tag: 'allowed_viewers', val: st.log_visibility.map(unhex) } : { tag: st.log_visibility, val: null }) : null,
      environment_variables: st.environment_variables ? st.environment_variables.map(([name, value]) => ({ name, value })) : null,
    } : null,
    subnet_selection: x.subnet ? (x.subnet.subnet ? { tag: 'Subnet', val: { subnet: unhex(x.subnet.subnet) } } : { tag: 'Filter', val: { subnet_type: x.subnet.type ?? null } }) : null,
  };
}
export function encodeRequest(m, a, toDepositor) {
  if (toDepositor) return encode([DEP], [{ cycles: BigInt(a.cycles), to: acc(a.to), memo: B(a.memo) }]);
  const v = (() => {
    switch (m) {
      case 'deposit': return { to: acc(a.to), memo: B(a.memo) };
      case 'icrc1_transfer': return { from_subaccount: B(a.fs), to: acc(a.to), amount: N(a.amt), fee: N(a.fee), memo: B(a.memo), created_at_time: N(a.cat) };
      case 'icrc2_transfer_from': return { spender_subaccount: B(a.ss), from: acc(a.from), to: acc(a.to), amount: N(a.amt), fee: N(a.fee), memo: B(a.memo), created_at_time: N(a.cat) };
      case 'icrc2_approve': return { from_subaccount: B(a.fs), spender: acc(a.sp), amount: N(a.amt), expected_allowance: N(a.xa), expires_at: N(a.exp), fee: N(a.fee), memo: B(a.memo), created_at_time: N(a.cat) };
      case 'withdraw': return { amount: N(a.amt), from_subaccount: B(a.fs), to: unhex(a.to), created_at_time: N(a.cat) };
      case 'withdraw_from': return { spender_subaccount: B(a.ss), from: acc(a.from), to: unhex(a.to), amount: N(a.amt), created_at_time: N(a.cat) };
      case 'create_canister': return { from_subaccount: B(a.fs), amount: N(a.amt), created_at_time: N(a.cat), creation_args: cmcArgs(a.args) };
      case 'create_canister_from': return { from: acc(a.from), spender_subaccount: B(a.ss), amount: N(a.amt), created_at_time: N(a.cat), creation_args: cmcArgs(a.args) };
    }
    throw new Error('method ' + m);
  })();
  return encode([REQ[m]], [v]);
}
export function encodeInit(c) {
  return encode([LedgerArgs], [{ tag: 'Init', val: initRec(c) }]);
}
const initRec = (c) => ({ max_blocks_per_request: BigInt(c.max), index_id: B(c.index), initial_balances: c.balances ? c.balances.map(([a, n]) => ({ 0: acc(a), 1: BigInt(n) })) : null });
// u: null -> None; 'empty' -> no argument bytes at all; {none:1} -> Upgrade(None); 'init' -> (bad) Init; otherwise {max?, index?: hex|'unset', bare?}
export function encodeUpgrade(u) {
  if (u === 'empty') return encode([], []);
  if (u === null || u === undefined) return encode([OptLedgerArgs], [null]);
  if (u === 'init') return encode([OptLedgerArgs], [{ tag: 'Init', val: initRec({ max: 7, index: null, balances: null }) }]);
  const v = { tag: 'Upgrade', val: u.none ? null : { max_blocks_per_request: N(u.max), change_index_id: u.index === undefined || u.index === null ? null : u.index === 'unset' ? { tag: 'Unset', val: null } : { tag: 'SetTo', val: unhex(u.index) } } };
  return u.bare ? encode([LedgerArgs], [v]) : encode([OptLedgerArgs], [v]);
}
