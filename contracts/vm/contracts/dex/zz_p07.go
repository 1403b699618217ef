package dex

//verif:file P07

import (
	"bytes"
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	"github.com/vitelabs/go-vite/v2/log15"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	dexproto "github.com/vitelabs/go-vite/v2/vm/contracts/dex/proto"
	"github.com/vitelabs/go-vite/v2/vm/util"
	zv "github.com/vitelabs/go-vite/v2/zzverif"
)

func num(b []byte) zv.Z { return zv.Bytes(b).BE() }

// The stored funds of an account: what reading finds and what writing leaves.
var zzFundIn *Fund
var zzFundThere bool
var zzFundOut *Fund
var zzFundSaves int

func zzGetFund(db interfaces.VmDb, address types.Address) (*Fund, bool) {
	if !zzFundThere {
		return &Fund{}, false
	}
	return zzFundIn, true
}
func zzSaveFund(db interfaces.VmDb, address types.Address, fund *Fund) {
	zzFundOut = fund
	zzFundSaves++
}

// parts are the numbers of an account.
type parts struct{ avail, locked, vx, unlocking, cancelling zv.Z }

func partsOf(a *dexproto.Account) parts {
	return parts{num(a.Available), num(a.Locked), num(a.VxLocked), num(a.VxUnlocking), num(a.CancellingStake)}
}
func (p parts) total() zv.Z { return p.avail.Add(p.locked).Add(p.vx).Add(p.unlocking) }
func (p parts) eq(q parts) bool {
	return p.avail.Eq(q.avail) && p.locked.Eq(q.locked) && p.vx.Eq(q.vx) && p.unlocking.Eq(q.unlocking) && p.cancelling.Eq(q.cancelling)
}

// stored prepares the stored funds: account k holds the token, account j is another one. k < 0: no account holds it.
func stored(fund *Fund, there bool, token []byte, k, j int) (p, q parts) {
	zv.Requires(fund != nil && len(fund.Accounts) < 1<<20)
	zv.Requires(zv.Forall(0, len(fund.Accounts), func(i int) bool { return fund.Accounts[i] != nil }))
	zzFundIn, zzFundThere, zzFundSaves, zzFundOut = fund, there, 0, nil
	zv.Requires(zv.Forall(0, zvIf7(k < 0, len(fund.Accounts), k), func(i int) bool { return !bytes.Equal(fund.Accounts[i].Token, token) }))
	if k >= 0 {
		zv.Requires(k < len(fund.Accounts) && bytes.Equal(fund.Accounts[k].Token, token))
		p = partsOf(fund.Accounts[k])
	}
	zv.Requires(j == -1 || 0 <= j && j < len(fund.Accounts))
	if j >= 0 {
		zv.Requires(k < 0 || fund.Accounts[j] != fund.Accounts[k])
		q = partsOf(fund.Accounts[j])
	}
	return
}
func zvIf7(b bool, x, y int) int {
	if b {
		return x
	}
	return y
}

// after checks what an update left: the account as expected if it succeeded, everything as it was if not.
func after(fund *Fund, acc *dexproto.Account, err error, ok bool, k, j int, want, was, other parts) {
	zv.Ensures("refused-only-if-short", (err == nil) == ok)
	zv.Ensures("stored-only-on-success", zzFundSaves == zvIf7(ok, 1, 0))
	if ok {
		zv.Ensures("the-right-account", acc == fund.Accounts[k] && zzFundOut == fund)
		zv.Ensures("moved", partsOf(acc).eq(want))
	} else if k >= 0 {
		zv.Ensures("nothing-taken", partsOf(fund.Accounts[k]).eq(was))
	}
	if j >= 0 {
		zv.Ensures("others-kept", partsOf(fund.Accounts[j]).eq(other))
	}
}

//verif:inv updateFund 0
func invUpdateFund(fund *Fund, tokenId []byte, rangeindex int) {
	zv.Invariant("index", -1 <= rangeindex && rangeindex < len(fund.Accounts))
	zv.Invariant("not-yet", zv.Forall(0, rangeindex+1, func(i int) bool { return !bytes.Equal(fund.Accounts[i].Token, tokenId) }))
}

//verif:contract ReduceAccount
//verif:prop P07
//verif:bytevals
//verif:replace GetFund zzGetFund
//verif:replace SaveFund zzSaveFund
func ctReduce(fund *Fund, there bool, addr types.Address, token types.TokenTypeId, k, j int, amount *big.Int) {
	was, other := stored(fund, there, token.Bytes(), k, j)
	zv.Requires(amount != nil && zv.B(amount).Ge(zv.N(0)))
	a := zv.B(amount)
	ok := there && k >= 0 && was.avail.Ge(a)
	acc, err := ReduceAccount(nil, addr, token.Bytes(), amount)
	want := was
	want.avail = was.avail.Sub(a)
	after(fund, acc, err, ok, k, j, want, was, other)
}

//verif:contract LockVxForDividend
//verif:prop P07
//verif:bytevals
//verif:replace GetFund zzGetFund
//verif:replace SaveFund zzSaveFund
func ctLockVx(fund *Fund, there bool, addr types.Address, k, j int, amount *big.Int) {
	was, other := stored(fund, there, VxTokenId.Bytes(), k, j)
	zv.Requires(amount != nil && zv.B(amount).Ge(zv.N(0)))
	a := zv.B(amount)
	ok := there && k >= 0 && was.avail.Ge(a)
	acc, err := LockVxForDividend(nil, addr, amount)
	want := was
	want.avail, want.vx = was.avail.Sub(a), was.vx.Add(a)
	after(fund, acc, err, ok, k, j, want, was, other)
}

//verif:contract ScheduleVxUnlockForDividend
//verif:prop P07
//verif:bytevals
//verif:replace GetFund zzGetFund
//verif:replace SaveFund zzSaveFund
func ctUnlockVx(fund *Fund, there bool, addr types.Address, k, j int, amount *big.Int) {
	was, other := stored(fund, there, VxTokenId.Bytes(), k, j)
	zv.Requires(amount != nil && zv.B(amount).Ge(zv.N(0)))
	zv.Requires(VxDividendThreshold != nil && VxDividendThreshold != amount)
	a := zv.B(amount)
	ok := there && k >= 0 && was.vx.Ge(a) && (was.vx.Eq(a) || was.vx.Sub(a).Ge(zv.B(VxDividendThreshold)))
	acc, err := ScheduleVxUnlockForDividend(nil, addr, amount)
	want := was
	want.vx, want.unlocking = was.vx.Sub(a), was.unlocking.Add(a)
	after(fund, acc, err, ok, k, j, want, was, other)
}

//verif:contract FinishVxUnlockForDividend
//verif:prop P07
//verif:bytevals
//verif:replace GetFund zzGetFund
//verif:replace SaveFund zzSaveFund
func ctFinishUnlock(fund *Fund, there bool, addr types.Address, k, j int, amount *big.Int) {
	was, other := stored(fund, there, VxTokenId.Bytes(), k, j)
	zv.Requires(amount != nil && zv.B(amount).Ge(zv.N(0)))
	a := zv.B(amount)
	ok := there && k >= 0 && was.unlocking.Ge(a)
	acc, err := FinishVxUnlockForDividend(nil, addr, amount)
	want := was
	want.unlocking, want.avail = was.unlocking.Sub(a), was.avail.Add(a)
	after(fund, acc, err, ok, k, j, want, was, other)
}

//verif:contract ScheduleCancelStake
//verif:prop P07
//verif:bytevals
//verif:replace GetFund zzGetFund
//verif:replace SaveFund zzSaveFund
func ctScheduleCancel(fund *Fund, there bool, addr types.Address, k, j int, amount *big.Int) {
	was, other := stored(fund, there, ledger.ViteTokenId.Bytes(), k, j)
	zv.Requires(amount != nil && zv.B(amount).Ge(zv.N(0)))
	a := zv.B(amount)
	ok := there && k >= 0 && true
	acc, err := ScheduleCancelStake(nil, addr, amount)
	want := was
	want.cancelling = was.cancelling.Add(a)
	after(fund, acc, err, ok, k, j, want, was, other)
}

//verif:contract FinishCancelStake
//verif:prop P07
//verif:bytevals
//verif:replace GetFund zzGetFund
//verif:replace SaveFund zzSaveFund
func ctFinishCancel(fund *Fund, there bool, addr types.Address, k, j int, amount *big.Int) {
	was, other := stored(fund, there, ledger.ViteTokenId.Bytes(), k, j)
	zv.Requires(amount != nil && zv.B(amount).Ge(zv.N(0)))
	a := zv.B(amount)
	ok := there && k >= 0 && was.cancelling.Ge(a)
	acc, err := FinishCancelStake(nil, addr, amount)
	want := was
	want.cancelling, want.avail = was.cancelling.Sub(a), was.avail.Add(a)
	after(fund, acc, err, ok, k, j, want, was, other)
}

//verif:contract DepositAccount
//verif:prop P07
//verif:bytevals
//verif:replace GetFund zzGetFund
//verif:replace SaveFund zzSaveFund
func ctDeposit(fund *Fund, there bool, addr types.Address, token types.TokenTypeId, k, j int, amount *big.Int) {
	was, other := stored(fund, there, token.Bytes(), k, j)
	zv.Requires(amount != nil && zv.B(amount).Ge(zv.N(0)))
	a := zv.B(amount)
	n := len(fund.Accounts)
	acc := DepositAccount(nil, addr, token, amount)
	zv.Ensures("stored-once", zzFundSaves == 1 && (zzFundOut == fund) == there)
	if there && k >= 0 {
		want := was
		want.avail = was.avail.Add(a)
		zv.Ensures("the-right-account", acc == fund.Accounts[k] && len(fund.Accounts) == n)
		zv.Ensures("credited", partsOf(acc).eq(want))
	} else {
		want := partsOf(&dexproto.Account{})
		want.avail = a
		m := zvIf7(there, n, 0)
		zv.Ensures("a-new-account", len(zzFundOut.Accounts) == m+1 && zzFundOut.Accounts[m] == acc && bytes.Equal(acc.Token, token.Bytes()))
		zv.Ensures("credited", partsOf(acc).eq(want))
	}
	if there && j >= 0 {
		zv.Ensures("others-kept", partsOf(fund.Accounts[j]).eq(other))
	}
}

//verif:inv DepositAccount 0
func invctDeposit(userFund *Fund, token types.TokenTypeId, rangeindex int) {
	zv.Invariant("index", -1 <= rangeindex && rangeindex < len(userFund.Accounts))
	zv.Invariant("not-yet", zv.Forall(0, rangeindex+1, func(i int) bool { return !bytes.Equal(userFund.Accounts[i].Token, token.Bytes()) }))
}

//verif:contract LockMinedVx
//verif:prop P07
//verif:bytevals
//verif:replace GetFund zzGetFund
//verif:replace SaveFund zzSaveFund
func ctLockMined(fund *Fund, there bool, addr types.Address, k, j int, amount *big.Int) {
	was, other := stored(fund, there, VxTokenId.Bytes(), k, j)
	zv.Requires(amount != nil && zv.B(amount).Ge(zv.N(0)))
	a := zv.B(amount)
	n := len(fund.Accounts)
	acc := LockMinedVx(nil, addr, amount)
	zv.Ensures("stored-once", zzFundSaves == 1 && (zzFundOut == fund) == there)
	if there && k >= 0 {
		want := was
		want.vx = was.vx.Add(a)
		zv.Ensures("the-right-account", acc == fund.Accounts[k] && len(fund.Accounts) == n)
		zv.Ensures("credited", partsOf(acc).eq(want))
	} else {
		want := partsOf(&dexproto.Account{})
		want.vx = a
		m := zvIf7(there, n, 0)
		zv.Ensures("a-new-account", len(zzFundOut.Accounts) == m+1 && zzFundOut.Accounts[m] == acc && bytes.Equal(acc.Token, VxTokenId.Bytes()))
		zv.Ensures("credited", partsOf(acc).eq(want))
	}
	if there && j >= 0 {
		zv.Ensures("others-kept", partsOf(fund.Accounts[j]).eq(other))
	}
}

//verif:inv LockMinedVx 0
func invctLockMined(userFund *Fund, rangeindex int) {
	zv.Invariant("index", -1 <= rangeindex && rangeindex < len(userFund.Accounts))
	zv.Invariant("not-yet", zv.Forall(0, rangeindex+1, func(i int) bool { return !bytes.Equal(userFund.Accounts[i].Token, VxTokenId.Bytes()) }))
}

var _ util.ConsensusReader

var zzFork bool
var zzShort bool
var zzThreshold *big.Int
var zzRounded [2]*big.Int
var zzRoundN int

func zzTokenInfo(db interfaces.VmDb, token types.TokenTypeId) (*TokenInfo, bool) { return &TokenInfo{}, true }
func zzOnSettleVx(db interfaces.VmDb, reader util.ConsensusReader, address []byte, s *dexproto.AccountSettle, a *dexproto.Account) error {
	return nil
}
func zzFeeFork(db interfaces.VmDb) bool { return zzFork }
func zzTooSmall(db interfaces.VmDb, amount []byte, marketInfo *MarketInfo) bool { return zzShort }
func zzOrderThreshold(db interfaces.VmDb, quoteTokenType int32) *big.Int       { return new(big.Int).Set(zzThreshold) }
func zzAdjust(amount []byte, decimalsDiff int32) *big.Int                       { return new(big.Int).Set(zzThreshold) }
func zzRound(amountF *big.Float) *big.Int {
	zzRoundN++
	return new(big.Int).Set(zzRounded[zzRoundN-1])
}

type zzLog struct{ log15.Logger }

func (l *zzLog) Error(msg string, ctx ...interface{}) {}

//verif:contract GetAccountByToken
//verif:prop P07
//verif:bytevals
func ctByToken(fund *Fund, token types.TokenTypeId, k, j int) {
	was, other := stored(fund, true, token.Bytes(), k, j)
	acc, ok := GetAccountByToken(fund, token)
	zv.Ensures("found", ok == (k >= 0))
	if ok {
		zv.Ensures("the-account", acc == fund.Accounts[k] && partsOf(acc).eq(was))
	} else {
		zv.Ensures("an-empty-one", bytes.Equal(acc.Token, token.Bytes()) && partsOf(acc).eq(partsOf(&dexproto.Account{})))
	}
	if j >= 0 {
		zv.Ensures("others-kept", partsOf(fund.Accounts[j]).eq(other))
	}
}

//verif:inv GetAccountByToken 0
func invByToken(fund *Fund, token types.TokenTypeId, rangeindex int) {
	zv.Invariant("index", -1 <= rangeindex && rangeindex < len(fund.Accounts))
	zv.Invariant("not-yet", zv.Forall(0, rangeindex+1, func(i int) bool { return !bytes.Equal(fund.Accounts[i].Token, token.Bytes()) }))
}

// zzByToken finds the account or makes an empty one, as the contract of GetAccountByToken says.
var zzAcc *dexproto.Account
var zzAccThere bool
var zzAccToken []byte

func zzByToken(fund *Fund, token types.TokenTypeId) (*dexproto.Account, bool) {
	zv.Assert("the-right-token", bytes.Equal(token.Bytes(), zzAccToken))
	return zzAcc, zzAccThere
}

//verif:contract DoSettleFund
//verif:prop P07
//verif:bytevals
//verif:replace GetFund zzGetFund
//verif:replace SaveFund zzSaveFund
//verif:replace GetTokenInfo zzTokenInfo
//verif:replace GetAccountByToken zzByToken
//verif:replace OnSettleVx zzOnSettleVx
//verif:replace IsDexFeeFork zzFeeFork
func ctSettleFund(acc dexproto.Account, exists bool, addr types.Address, trade, quote types.TokenTypeId, s dexproto.AccountSettle, fork bool, m MarketInfo) {
	m.TradeToken, m.QuoteToken = trade.Bytes(), quote.Bytes()
	zzAccToken = quote.Bytes()
	if s.IsTradeToken {
		zzAccToken = trade.Bytes()
	}
	zv.Requires(norm7(acc.Locked) && norm7(s.ReduceLocked) && norm7(s.ReleaseLocked))
	zzFundIn, zzFundThere, zzFundSaves, zzFundOut = &Fund{}, true, 0, nil
	zzAcc, zzAccThere, zzFork = &acc, exists, fork
	was := partsOf(&acc)
	reduce, release, inc := num(s.ReduceLocked), num(s.ReleaseLocked), num(s.IncAvailable)
	zv.Requires(fork || reduce.Add(release).Le(was.locked))
	act := &dexproto.FundSettle{Address: addr.Bytes(), AccountSettles: []*dexproto.AccountSettle{&s}}
	err := DoSettleFund(nil, nil, act, &m, &zzLog{})
	zv.Ensures("settled", err == nil && zzFundSaves == 1)
	reduced := reduce.Min(was.locked)
	released := release.Min(was.locked.Sub(reduced))
	now := partsOf(&acc)
	zv.Ensures("locked", now.locked.Eq(was.locked.Sub(reduced).Sub(released)))
	zv.Ensures("available", now.avail.Eq(was.avail.Add(released).Add(inc)))
	zv.Ensures("nothing-else", now.vx.Eq(was.vx) && now.unlocking.Eq(was.unlocking) && now.cancelling.Eq(was.cancelling))
	zv.Ensures("new-account-kept", len(zzFundOut.Accounts) == zvIf7(exists, 0, 1) && (exists || zzFundOut.Accounts[0] == &acc))
}

func norm7(b []byte) bool { return len(b) == 0 || b[0] != 0 }

//verif:contract CheckAndLockFundForNewOrder
//verif:prop P07
//verif:bytevals
//verif:replace isAmountTooSmall zzTooSmall
//verif:replace GetMarketOrderAmtThreshold zzOrderThreshold
//verif:replace AdjustAmountForDecimalsDiff zzAdjust
//verif:replace GetAccountByToken zzByToken
func ctLockForOrder(acc dexproto.Account, exists bool, trade, quote types.TokenTypeId, o Order, m MarketInfo, short bool, threshold *big.Int, enrich bool) {
	m.TradeToken, m.QuoteToken = trade.Bytes(), quote.Bytes()
	zzAccToken = quote.Bytes()
	if o.Side {
		zzAccToken = trade.Bytes()
	}
	zzAcc, zzAccThere = &acc, exists
	was := partsOf(&acc)
	zv.Requires(threshold != nil && zv.B(threshold).Ge(zv.N(0)) && m.QuoteTokenType >= ViteTokenType && m.QuoteTokenType <= UsdTokenType)
	zv.Requires(enrich || o.Type == Limited || o.Type == Market)
	zv.Requires(o.Type >= Limited && o.Type <= ImmediateOrCancel)
	zzShort, zzThreshold = short, threshold
	limit := o.Type == Limited || o.Type != Market
	lock := zv.If(o.Side, num(o.Quantity), zv.If(limit, num(o.Amount).Add(num(o.LockedBuyFee)), was.avail))
	marketBuy := !o.Side && !limit
	amount := num(o.Amount)
	ok := exists && was.avail.Ge(lock) && !(marketBuy && short)
	err := CheckAndLockFundForNewOrder(nil, &Fund{}, &o, &m, enrich)
	zv.Ensures("locked-only-if-available", (err == nil) == ok)
	now := partsOf(&acc)
	if ok {
		zv.Ensures("moved-to-locked", now.avail.Eq(was.avail.Sub(lock)) && now.locked.Eq(was.locked.Add(lock)))
		zv.Ensures("order-knows-its-lock", num(o.Amount).Eq(zv.If(marketBuy, lock, amount)))
	} else {
		zv.Ensures("nothing-taken", now.avail.Eq(was.avail) && now.locked.Eq(was.locked))
	}
	zv.Ensures("nothing-else", now.vx.Eq(was.vx) && now.unlocking.Eq(was.unlocking) && now.cancelling.Eq(was.cancelling))
}

func rounded(a, b *big.Int) {
	zv.Requires(a != nil && b != nil && zv.B(a).Ge(zv.N(0)) && zv.B(b).Ge(zv.N(0)))
	zzRounded, zzRoundN = [2]*big.Int{a, b}, 0
}

//verif:contract DivideByProportion
//verif:prop P07
//verif:replace RoundAmount zzRound
func ctDivide(total, part, divided, all, leave, rnd, r2 *big.Int) {
	rounded(rnd, r2)
	zv.Requires(total != nil && part != nil && divided != nil && all != nil && leave != nil && zv.Disjoint(total, part, divided, all, leave))
	zv.Requires(zv.B(total).Gt(zv.N(0)) && zv.B(part).Ge(zv.N(0)) && zv.B(divided).Ge(zv.N(0)) && zv.B(all).Ge(zv.N(0)) && zv.B(leave).Ge(zv.N(0)))
	t, p, d, a, l := zv.B(total), zv.B(part), zv.B(divided), zv.B(all), zv.B(leave)
	got, fin := DivideByProportion(total, part, divided, all, leave)
	zv.Ensures("nothing-minted-or-lost", zv.B(got).Add(zv.B(leave)).Eq(l) && zv.B(got).Ge(zv.N(0)) && zv.B(leave).Ge(zv.N(0)))
	zv.Ensures("last-share-takes-the-rest", d.Add(p).Lt(t) || fin)
	zv.Ensures("finished-means-empty", !fin || zv.B(leave).Eq(zv.N(0)))
	zv.Ensures("counted", zv.B(divided).Eq(d.Add(p)) && zv.B(total).Eq(t) && zv.B(part).Eq(p) && zv.B(all).Eq(a))
}

//verif:contract splitDividendPool
//verif:prop P07
//verif:replace CalculateAmountForRate zzRate7
//verif:bytevals
func ctSplitPool(d dexproto.FeeForDividend, rnd, r2 *big.Int) {
	rounded(rnd, r2)
	zv.Requires(zv.B(rnd).Le(num(d.DividendPoolAmount)))
	out, rolled := splitDividendPool(&d)
	zv.Ensures("split", zv.B(out).Add(zv.B(rolled)).Eq(num(d.DividendPoolAmount)) && zv.B(out).Ge(zv.N(0)) && zv.B(rolled).Ge(zv.N(0)))
	zv.Ensures("not-rolled-goes-out", !d.NotRoll || zv.B(rolled).Eq(zv.N(0)))
}

func zzRate7(amount []byte, rate int32) []byte { return zzRounded[0].Bytes() }

//verif:contract GetVxAmountToMine
//verif:prop P07
//verif:replace RoundAmount zzRound
//verif:replace GetVxToMineByPeriodId zzToMine
func ctToMine(pool, rnd, r2 *big.Int, period uint64) {
	rounded(rnd, r2)
	zv.Requires(pool != nil)
	p := zv.B(pool)
	amount, left, ok := GetVxAmountToMine(nil, period, pool, "0.1")
	zv.Ensures("mines-while-the-pool-lasts", ok == p.Gt(zv.N(0)))
	if ok {
		zv.Ensures("from-the-pool", zv.B(amount).Add(zv.B(left)).Eq(p) && zv.B(left).Ge(zv.N(0)) && zv.B(amount).Ge(zv.N(0)))
		zv.Ensures("pool-kept", zv.B(pool).Eq(p))
	}
}

func zzToMine(db interfaces.VmDb, periodId uint64) *big.Int { return zzRounded[1] }

//verif:contract GetVxAmountsForEqualItems
//verif:prop P07
//verif:replace RoundAmount zzRound
//verif:replace GetVxToMineByPeriodId zzToMine
func ctEqualItems(pool, rnd, r2 *big.Int, period uint64, r [4]uint32) {
	rounded(rnd, r2)
	zv.Requires(pool != nil && r[0] < 100 && r[1] < 100 && r[2] < 100 && r[3] < 100 && r[0]+r[1]+r[2]+r[3] > 0)
	mr := mineRate{totalRate: "0.6", total: r[0] + r[1] + r[2] + r[3], fields: []mineRateField{{1, r[0]}, {2, r[1]}, {3, r[2]}, {4, r[3]}}}
	p := zv.B(pool)
	items, left, ok := GetVxAmountsForEqualItems(nil, period, pool, mr)
	zv.Ensures("mines-while-the-pool-lasts", ok == p.Gt(zv.N(0)))
	if ok {
		sum := zv.B(items[1]).Add(zv.B(items[2])).Add(zv.B(items[3])).Add(zv.B(items[4]))
		zv.Ensures("from-the-pool", sum.Add(zv.B(left)).Eq(p) && zv.B(left).Ge(zv.N(0)))
		zv.Ensures("never-negative", zv.B(items[1]).Ge(zv.N(0)) && zv.B(items[2]).Ge(zv.N(0)) && zv.B(items[3]).Ge(zv.N(0)) && zv.B(items[4]).Ge(zv.N(0)))
		zv.Ensures("pool-kept", zv.B(pool).Eq(p))
	}
}
