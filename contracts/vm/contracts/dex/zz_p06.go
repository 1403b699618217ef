package dex

//verif:file P06

import (
	"bytes"
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/interfaces"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex/proto"
	zv "github.com/vitelabs/go-vite/v2/zzverif"
)

// amt is the number that an amount's bytes stand for.
func amt(b []byte) zv.Z { return zv.Bytes(b).BE() }

func zAbs(z zv.Z) zv.Z { return zv.If(z.Lt(zv.N(0)), zv.N(0).Sub(z), z) }
func zMin(a, b zv.Z) zv.Z { return zv.If(a.Lt(b), a, b) }

//verif:contract AddBigInt
//verif:prop P06
//verif:bytevals
func ctAddBigInt(a, b []byte) {
	zv.Ensures("sum", amt(AddBigInt(a, b)).Eq(amt(a).Add(amt(b))))
}

//verif:contract SubBigIntAbs
//verif:prop P06
//verif:bytevals
func ctSubBigIntAbs(a, b []byte) {
	zv.Ensures("difference", amt(SubBigIntAbs(a, b)).Eq(zAbs(amt(a).Sub(amt(b)))))
}

//verif:contract SubBigInt
//verif:prop P06
//verif:bytevals
func ctSubBigInt(a, b []byte) {
	zv.Ensures("difference", zv.B(SubBigInt(a, b)).Eq(amt(a).Sub(amt(b))))
}

//verif:contract SafeSubBigInt
//verif:prop P06
//verif:bytevals
func ctSafeSub(a, b []byte) {
	zv.Requires(len(a) == 0 || amt(a).Gt(zv.N(0)))
	zv.Requires(len(b) == 0 || amt(b).Gt(zv.N(0)))
	res, sub, exceed := SafeSubBigInt(a, b)
	zv.Ensures("exceeds", exceed == amt(b).Gt(amt(a)))
	zv.Ensures("taken", amt(sub).Eq(zMin(amt(a), amt(b))))
	zv.Ensures("nothing-lost", amt(res).Add(amt(sub)).Eq(amt(a)))
}

//verif:contract MinBigInt
//verif:prop P06
//verif:bytevals
func ctMinBigInt(a, b []byte) {
	zv.Ensures("least", amt(MinBigInt(a, b)).Eq(zMin(amt(a), amt(b))))
}

//verif:contract CmpToBigZero
//verif:prop P06
//verif:bytevals
func ctCmpZero(a []byte) {
	zv.Ensures("sign", (CmpToBigZero(a) > 0) == amt(a).Gt(zv.N(0)) && CmpToBigZero(a) >= 0)
}

//verif:contract CmpForBigInt
//verif:prop P06
//verif:bytevals
func ctCmp(a, b []byte) {
	zv.Requires(len(a) == 0 || amt(a).Gt(zv.N(0)))
	zv.Requires(len(b) == 0 || amt(b).Gt(zv.N(0)))
	c := CmpForBigInt(a, b)
	zv.Ensures("order", (c < 0) == amt(a).Lt(amt(b)) && (c > 0) == amt(a).Gt(amt(b)))
}

// Prices and rates are computed with rounded floating-point numbers: here, arbitrary results.
var zzRaw [4]*big.Int
var zzRawN int
var zzDust [4]bool
var zzDustN int

func zzAmount(quantity []byte, price []byte, decimalsDiff int32) []byte {
	r := zzRaw[zzRawN].Bytes()
	zzRawN++
	return r
}
func zzQuantity(amount []byte, price []byte, decimalsDiff int32) []byte { return zzRaw[3].Bytes() }
func zzRate(amount []byte, rate int32) []byte {
	if rate <= 0 {
		return nil
	}
	r := zzFees[zzFeeN].Bytes()
	zzFeeN++
	return r
}
func zzDustP(order *Order, quantity []byte, decimalsDiff int32, price []byte) bool {
	r := zzDust[zzDustN]
	zzDustN++
	return r
}

var zzFees [4]*big.Int
var zzFeeN int

// rounding fixes what the rounded computations return.
func rounding(raw, fees *[4]*big.Int, dust [4]bool) {
	zv.Requires(raw != nil && fees != nil)
	for i := 0; i < 4; i++ {
		zv.Requires(raw[i] != nil && zv.B(raw[i]).Ge(zv.N(0)))
		zv.Requires(fees[i] != nil && zv.B(fees[i]).Ge(zv.N(0)))
	}
	zzRaw, zzFees, zzDust = *raw, *fees, dust
	zzRawN, zzFeeN, zzDustN = 0, 0, 0
}

// zzPoint is an arbitrary fork schedule at the current height.
type zzPoint struct{ v12, fee bool }

func (p *zzPoint) IsVersion12Upgrade() bool { return p.v12 }
func (p *zzPoint) IsDexFeeUpgrade() bool    { return p.fee }

var _ upgrade.HeightPoint = (*zzPoint)(nil)

func norm(b []byte) bool { return len(b) == 0 || b[0] != 0 }

//verif:contract calculateExecutedFee
//verif:prop P06
//verif:bytevals
//verif:replace CalculateAmountForRate zzRate
func ctExecutedFee(amount []byte, rate int32, side bool, origin, locked, used1, used2 []byte, raw, fees *[4]*big.Int) {
	rounding(raw, fees, [4]bool{})
	zv.Requires(rate >= 0 && norm(locked) && norm(used1) && norm(used2) && norm(origin))
	used := amt(used1).Add(amt(used2))
	inc, executed, more := calculateExecutedFee(amount, rate, side, origin, locked, used1, used2)
	fee := zv.If(rate == 0, zv.N(0), zv.B(fees[0]))
	zv.Ensures("accounted", amt(executed).Eq(amt(origin).Add(amt(inc))))
	zv.Ensures("no-more-than-due", amt(inc).Le(fee))
	if side {
		zv.Ensures("seller-pays-in-full", amt(inc).Eq(fee) && more)
	} else {
		zv.Ensures("buyer-pays-what-is-locked", used.Gt(amt(locked)) || amt(inc).Eq(zMin(fee, amt(locked).Sub(used))))
		zv.Ensures("never-beyond-the-lock", amt(inc).Eq(zv.N(0)) || used.Add(amt(inc)).Le(amt(locked)))
	}
}

//verif:contract CalculateFeeAndExecutedFee
//verif:prop P06
//verif:bytevals
//verif:replace CalculateAmountForRate zzRate
func ctFees(o Order, amount []byte, rate, opRate int32, p *zzPoint, raw, fees *[4]*big.Int) {
	rounding(raw, fees, [4]bool{})
	zv.Requires(p != nil && p.fee && rate >= 0 && opRate >= 0 && norm(o.LockedBuyFee) && norm(o.ExecutedBaseFee) && norm(o.ExecutedOperatorFee))
	zv.Requires(o.Side || amt(o.ExecutedBaseFee).Add(amt(o.ExecutedOperatorFee)).Le(amt(o.LockedBuyFee)))
	b, eb, op, eop := CalculateFeeAndExecutedFee(&o, amount, rate, opRate, p)
	zv.Ensures("accounted", amt(eb).Eq(amt(o.ExecutedBaseFee).Add(amt(b))) && amt(eop).Eq(amt(o.ExecutedOperatorFee).Add(amt(op))))
	zv.Ensures("within-the-lock", o.Side || amt(eb).Add(amt(eop)).Le(amt(o.LockedBuyFee)))
}

//verif:contract calculateOrderAmount
//verif:prop P06
//verif:bytevals
//verif:replace CalculateRawAmount zzAmount
func ctOrderAmount(o Order, quantity, price []byte, diff int32, raw, fees *[4]*big.Int) {
	rounding(raw, fees, [4]bool{})
	zv.Requires(o.Side || amt(o.ExecutedAmount).Le(amt(o.Amount)))
	a := calculateOrderAmount(&o, quantity, price, diff)
	zv.Ensures("sell", !o.Side || amt(a).Eq(zv.B(raw[0])))
	zv.Ensures("buy-within-the-lock", o.Side || amt(a).Eq(zMin(zv.B(raw[0]), amt(o.Amount).Sub(amt(o.ExecutedAmount)))))
}

// sound: an order never executed beyond what it locked.
func sound(o *Order) bool {
	return norm(o.Quantity) && norm(o.ExecutedQuantity) && norm(o.Amount) && norm(o.ExecutedAmount) && norm(o.LockedBuyFee) && norm(o.ExecutedBaseFee) && norm(o.ExecutedOperatorFee) &&
		amt(o.ExecutedQuantity).Le(amt(o.Quantity)) &&
		(o.Side || amt(o.ExecutedAmount).Le(amt(o.Amount)) && amt(o.ExecutedBaseFee).Add(amt(o.ExecutedOperatorFee)).Le(amt(o.LockedBuyFee)))
}

//verif:contract calculateOrderAndTx
//verif:prop P06
//verif:bytevals
//verif:replace CalculateRawAmount zzAmount
//verif:replace CalculateRawQuantity zzQuantity
//verif:replace CalculateAmountForRate zzRate
//verif:replace IsOrderDustForPrice zzDustP
//verif:replace IsOrderDustForAmount zzDustP
//verif:cases side 0 1
func ctMatch(side int, taker, maker Order, m *MarketInfo, p *zzPoint, raw, fees *[4]*big.Int, dust [4]bool) {
	rounding(raw, fees, dust)
	taker.Side, maker.Side = side == 1, side == 0
	zv.Requires(m != nil && p != nil && p.fee && maker.Type != Market)
	zv.Requires(taker.TakerFeeRate >= 0 && taker.TakerOperatorFeeRate >= 0 && maker.MakerFeeRate >= 0 && maker.MakerOperatorFeeRate >= 0)
	zv.Requires(sound(&taker) && sound(&maker))
	tq, ta, tf, to := amt(taker.ExecutedQuantity), amt(taker.ExecutedAmount), amt(taker.ExecutedBaseFee), amt(taker.ExecutedOperatorFee)
	mq, ma, mf, mo := amt(maker.ExecutedQuantity), amt(maker.ExecutedAmount), amt(maker.ExecutedBaseFee), amt(maker.ExecutedOperatorFee)
	tx := calculateOrderAndTx(&taker, &maker, m, p)
	q, a := amt(tx.Quantity), amt(tx.Amount)
	zv.Ensures("both-executed-alike", amt(taker.ExecutedQuantity).Eq(tq.Add(q)) && amt(maker.ExecutedQuantity).Eq(mq.Add(q)) && amt(taker.ExecutedAmount).Eq(ta.Add(a)) && amt(maker.ExecutedAmount).Eq(ma.Add(a)))
	zv.Ensures("fees-accounted", amt(taker.ExecutedBaseFee).Eq(tf.Add(amt(tx.TakerFee))) && amt(taker.ExecutedOperatorFee).Eq(to.Add(amt(tx.TakerOperatorFee))) &&
		amt(maker.ExecutedBaseFee).Eq(mf.Add(amt(tx.MakerFee))) && amt(maker.ExecutedOperatorFee).Eq(mo.Add(amt(tx.MakerOperatorFee))))
	zv.Ensures("never-beyond-quantity", amt(taker.ExecutedQuantity).Le(amt(taker.Quantity)) && amt(maker.ExecutedQuantity).Le(amt(maker.Quantity)))
	zv.Ensures("never-beyond-amount", (taker.Side || amt(taker.ExecutedAmount).Le(amt(taker.Amount))) && (maker.Side || amt(maker.ExecutedAmount).Le(amt(maker.Amount))))
	zv.Ensures("never-beyond-locked-fee", (taker.Side || amt(taker.ExecutedBaseFee).Add(amt(taker.ExecutedOperatorFee)).Le(amt(taker.LockedBuyFee))) && (maker.Side || amt(maker.ExecutedBaseFee).Add(amt(maker.ExecutedOperatorFee)).Le(amt(maker.LockedBuyFee))))
	zv.Ensures("at-the-maker-price", zv.Bytes(tx.Price).Eq(zv.Bytes(maker.Price)) && tx.TakerSide == taker.Side)
	zv.Ensures("between-the-two", zv.Bytes(tx.takerAddress).Eq(zv.Bytes(taker.Address)) && zv.Bytes(tx.makerAddress).Eq(zv.Bytes(maker.Address)) && zv.Bytes(tx.TakerId).Eq(zv.Bytes(taker.Id)) && zv.Bytes(tx.MakerId).Eq(zv.Bytes(maker.Id)))
	zv.Ensures("executed", (taker.Status == FullyExecuted || taker.Status == PartialExecuted) && (maker.Status == FullyExecuted || maker.Status == PartialExecuted))
	zv.Ensures("filled-is-final", (amt(taker.ExecutedQuantity).Lt(amt(taker.Quantity)) || taker.Status == FullyExecuted) && (amt(maker.ExecutedQuantity).Lt(amt(maker.Quantity)) || maker.Status == FullyExecuted))
}

//verif:contract matchPrice
//verif:prop P06
func ctMatchPrice(taker, maker *Order) {
	zv.Requires(taker != nil && maker != nil)
	c := bytes.Compare(taker.Price, maker.Price)
	ok, price := matchPrice(taker, maker)
	zv.Ensures("crosses", ok == (taker.Type == Market || !taker.Side && c >= 0 || taker.Side && c <= 0))
	zv.Ensures("maker-price", zv.Bytes(price).Eq(zv.Bytes(maker.Price)))
}

func addrBytes(b []byte) { zv.Requires(len(b) == types.AddressSize) }

// tot sums a field of the settlement of an account and token.
func settle(mc *Matcher, addr []byte, trade bool) (inc, release, reduce zv.Z) {
	var a types.Address
	a.SetBytes(addr)
	inc, release, reduce = zv.N(0), zv.N(0), zv.N(0)
	if s := mc.fundSettles[a][trade]; s != nil {
		return amt(s.IncAvailable), amt(s.ReleaseLocked), amt(s.ReduceLocked)
	}
	return
}

// The settlements a trade asks for, in order; updateFundSettle and updateFee add them up, see their contracts.
var zzSet [6]proto.AccountSettle
var zzSetAddr, zzFeeAddr [6][]byte
var zzFee [6][2][]byte
var zzSetN, zzFeeCnt int

func zzUpdateSettle(mc *Matcher, addr []byte, s proto.AccountSettle) {
	zzSet[zzSetN], zzSetAddr[zzSetN] = s, addr
	zzSetN++
}
func zzUpdateFee(mc *Matcher, addr []byte, feeAmt, operatorFee []byte) {
	zzFee[zzFeeCnt], zzFeeAddr[zzFeeCnt] = [2][]byte{feeAmt, operatorFee}, addr
	zzFeeCnt++
}

// asked sums what was asked for an account and token.
func asked(addr []byte, trade bool) (inc, release, reduce zv.Z) {
	inc, release, reduce = zv.N(0), zv.N(0), zv.N(0)
	for k := 0; k < 6 && k < zzSetN; k++ {
		hit := zzSet[k].IsTradeToken == trade && zv.Bytes(zzSetAddr[k]).Eq(zv.Bytes(addr))
		inc = inc.Add(zv.If(hit, amt(zzSet[k].IncAvailable), zv.N(0)))
		release = release.Add(zv.If(hit, amt(zzSet[k].ReleaseLocked), zv.N(0)))
		reduce = reduce.Add(zv.If(hit, amt(zzSet[k].ReduceLocked), zv.N(0)))
	}
	return
}
func askedFee(addr []byte) (base, op zv.Z) {
	base, op = zv.N(0), zv.N(0)
	for k := 0; k < 6 && k < zzFeeCnt; k++ {
		hit := zv.Bytes(zzFeeAddr[k]).Eq(zv.Bytes(addr))
		base = base.Add(zv.If(hit, amt(zzFee[k][0]), zv.N(0)))
		op = op.Add(zv.If(hit, amt(zzFee[k][1]), zv.N(0)))
	}
	return
}

//verif:contract (*Matcher).handleTxFundSettle
//verif:prop P06
//verif:bytevals
//verif:replace (*Matcher).updateFundSettle zzUpdateSettle
//verif:replace (*Matcher).updateFee zzUpdateFee
//verif:cases who 0 3
func ctTxSettle(who int, tx OrderTx) {
	same := who%2 == 1
	tx.TakerSide = who >= 2
	if same {
		tx.makerAddress = tx.takerAddress
	} else {
		zv.Requires(!zv.Bytes(tx.takerAddress).Eq(zv.Bytes(tx.makerAddress)))
	}
	q, a := amt(tx.Quantity), amt(tx.Amount)
	tf, mf := amt(tx.TakerFee).Add(amt(tx.TakerOperatorFee)), amt(tx.MakerFee).Add(amt(tx.MakerOperatorFee))
	zv.Requires(zv.If(tx.TakerSide, tf, mf).Le(a))
	zzSetN, zzFeeCnt = 0, 0
	mc := NewRawMatcher(nil)
	mc.handleTxFundSettle(tx)
	seller, buyer, sf, bf := tx.makerAddress, tx.takerAddress, mf, tf
	if tx.TakerSide {
		seller, buyer, sf, bf = tx.takerAddress, tx.makerAddress, tf, mf
	}
	z := zv.N(0)
	bti, btr, btd := asked(buyer, true)
	bqi, bqr, bqd := asked(buyer, false)
	if same {
		zv.Ensures("own-trade", bti.Eq(q) && btd.Eq(q) && bqi.Eq(a.Sub(sf)) && bqd.Eq(a.Add(bf)) && btr.Eq(z) && bqr.Eq(z))
	} else {
		sti, str, std := asked(seller, true)
		sqi, sqr, sqd := asked(seller, false)
		zv.Ensures("buyer-gets-what-the-seller-gives", bti.Eq(q) && std.Eq(q) && sti.Eq(z) && btd.Eq(z))
		zv.Ensures("seller-gets-what-the-buyer-pays", sqi.Eq(a.Sub(sf)) && bqd.Eq(a.Add(bf)) && bqi.Eq(z) && sqd.Eq(z))
		zv.Ensures("nothing-else-released", btr.Eq(z) && bqr.Eq(z) && str.Eq(z) && sqr.Eq(z))
	}
	fb, fo := askedFee(tx.takerAddress)
	if same {
		zv.Ensures("fees-collected", fb.Eq(amt(tx.TakerFee).Add(amt(tx.MakerFee))) && fb.Add(fo).Eq(tf.Add(mf)))
	} else {
		gb, g := askedFee(tx.makerAddress)
		zv.Ensures("fees-collected", fb.Eq(amt(tx.TakerFee)) && fb.Add(fo).Eq(tf) && gb.Eq(amt(tx.MakerFee)) && gb.Add(g).Eq(mf))
	}
}

//verif:contract (*Matcher).updateFee
//verif:prop P06
func ctUpdateFee(a1, a2, f1, o1, f2, o2 []byte) {
	addrBytes(a1)
	addrBytes(a2)
	mc := NewRawMatcher(nil)
	mc.updateFee(a1, f1, o1)
	mc.updateFee(a2, f2, o2)
	var x, y types.Address
	x.SetBytes(a1)
	y.SetBytes(a2)
	s, t := mc.feeSettles[x], mc.feeSettles[y]
	if x == y {
		zv.Ensures("added", amt(s.BaseFee).Eq(amt(f1).Add(amt(f2))) && amt(s.OperatorFee).Eq(amt(o1).Add(amt(o2))))
	} else {
		zv.Ensures("apart", amt(s.BaseFee).Eq(amt(f1)) && amt(s.OperatorFee).Eq(amt(o1)) && amt(t.BaseFee).Eq(amt(f2)) && amt(t.OperatorFee).Eq(amt(o2)))
	}
}

//verif:contract (*Matcher).updateFundSettle
//verif:prop P06
func ctUpdateSettle(addr []byte, s1, s2 proto.AccountSettle, trade bool) {
	addrBytes(addr)
	mc := NewRawMatcher(nil)
	mc.updateFundSettle(addr, s1)
	i0, r0, d0 := settle(mc, addr, trade)
	mc.updateFundSettle(addr, s2)
	i1, r1, d1 := settle(mc, addr, trade)
	hit := s2.IsTradeToken == trade
	zv.Ensures("added", i1.Eq(i0.Add(zv.If(hit, amt(s2.IncAvailable), zv.N(0)))) && r1.Eq(r0.Add(zv.If(hit, amt(s2.ReleaseLocked), zv.N(0)))) && d1.Eq(d0.Add(zv.If(hit, amt(s2.ReduceLocked), zv.N(0)))))
}

//verif:contract (*Matcher).handleRefund
//verif:prop P06
func ctRefund(o Order, m *MarketInfo) {
	zv.Requires(m != nil && sound(&o))
	addrBytes(o.Address)
	mc := NewRawMatcher(nil)
	mc.MarketInfo = m
	mc.handleRefund(&o)
	_, tr, _ := settle(mc, o.Address, true)
	_, qr, _ := settle(mc, o.Address, false)
	final := o.Status == FullyExecuted || o.Status == Cancelled
	left := zv.If(o.Side, amt(o.Quantity).Sub(amt(o.ExecutedQuantity)),
		amt(o.Amount).Sub(amt(o.ExecutedAmount)).Add(amt(o.LockedBuyFee)).Sub(amt(o.ExecutedBaseFee)).Sub(amt(o.ExecutedOperatorFee)))
	zv.Ensures("releases-exactly-what-is-left", zv.If(o.Side, tr, qr).Eq(zv.If(final, left, zv.N(0))))
	zv.Ensures("of-the-locked-token-only", zv.If(o.Side, qr, tr).Eq(zv.N(0)))
	zv.Ensures("recorded", !final || amt(o.RefundQuantity).Eq(left))
}

// What becomes of an order outside the book's memory: recorded by the stand-ins.
var zzSaved, zzDeleted, zzNewLog, zzUpdLog, zzMakers, zzTxs int
var zzSavedOrder Order

func zzSave(mc *Matcher, order Order, isTaker bool) { zzSaved++; zzSavedOrder = order }
func zzDelete(mc *Matcher, order *Order)            { zzDeleted++ }
func zzEmitNew(mc *Matcher, taker Order)            { zzNewLog++ }
func zzEmitUpd(mc *Matcher, order Order)            { zzUpdLog++ }

//verif:contract (*Matcher).CancelOrderById
//verif:prop P06
//verif:replace (*Matcher).deleteOrder zzDelete
//verif:replace (*Matcher).emitOrderUpdate zzEmitUpd
func ctCancel(o Order, m *MarketInfo) {
	zv.Requires(m != nil && sound(&o))
	addrBytes(o.Address)
	mc := NewRawMatcher(nil)
	mc.MarketInfo = m
	zzDeleted, zzUpdLog = 0, 0
	mc.CancelOrderById(&o)
	_, tr, _ := settle(mc, o.Address, true)
	_, qr, _ := settle(mc, o.Address, false)
	left := zv.If(o.Side, amt(o.Quantity).Sub(amt(o.ExecutedQuantity)),
		amt(o.Amount).Sub(amt(o.ExecutedAmount)).Add(amt(o.LockedBuyFee)).Sub(amt(o.ExecutedBaseFee)).Sub(amt(o.ExecutedOperatorFee)))
	zv.Ensures("releases-exactly-what-is-left", zv.If(o.Side, tr, qr).Eq(left) && zv.If(o.Side, qr, tr).Eq(zv.N(0)))
	zv.Ensures("gone-from-the-book", o.Status == Cancelled && zzDeleted == 1 && zzUpdLog == 1)
}

// zzRefund records the order that is released; handleRefund releases what is left of it, see ctRefund.
func zzRefund(mc *Matcher, order *Order) { zzDeleted++; zzSavedOrder = *order }

//verif:contract (*Matcher).handleTakerRes
//verif:prop P06
//verif:bytevals
//verif:replace (*Matcher).saveOrder zzSave
//verif:replace (*Matcher).emitNewOrder zzEmitNew
//verif:replace (*Matcher).handleRefund zzRefund
func ctTakerRes(o Order, m *MarketInfo) {
	zv.Requires(m != nil && sound(&o) && o.Status >= Pending && o.Status <= Cancelled)
	zv.Requires(o.Type != Market || norm(o.MarketOrderAmtThreshold))
	mc := NewRawMatcher(nil)
	mc.MarketInfo = m
	zzSaved, zzNewLog, zzDeleted = 0, 0, 0
	st := o.Status
	q, a := amt(o.ExecutedQuantity), amt(o.ExecutedAmount)
	over := o.Type == Market && a.Add(amt(o.ExecutedBaseFee)).Add(amt(o.ExecutedOperatorFee)).Gt(amt(o.MarketOrderAmtThreshold))
	open := st == Pending || st == PartialExecuted
	fok := open && !over && o.Type == FillOrKill
	mc.handleTakerRes(&o)
	rests := !over && open && o.Type != Market && o.Type != ImmediateOrCancel && o.Type != FillOrKill
	zv.Ensures("kept-or-released", zzSaved == 1 && rests && zzDeleted == 0 || zzSaved == 0 && !rests && zzDeleted == 1)
	zv.Ensures("final-or-open", rests && o.Status == st || !rests && (o.Status == Cancelled || o.Status == FullyExecuted && st == FullyExecuted))
	zv.Ensures("released-or-stored-as-it-ends", zzSavedOrder.Status == o.Status && zzSavedOrder.Side == o.Side && amt(zzSavedOrder.ExecutedQuantity).Eq(amt(o.ExecutedQuantity)) && amt(zzSavedOrder.ExecutedAmount).Eq(amt(o.ExecutedAmount)))
	zv.Ensures("announced", zzNewLog == 1)
	zv.Ensures("all-or-nothing", zv.If(fok || over, zv.N(0), q).Eq(amt(o.ExecutedQuantity)) && zv.If(fok || over, zv.N(0), a).Eq(amt(o.ExecutedAmount)))
	zv.Ensures("undone-is-flagged", !fok || o.CancelReason == cancelledByFillOrKillNotFilled)
}

// What matching against the book leaves behind: arbitrary orders and executions.
var zzAfter *Order
var zzBookEmpty bool

func zzRecursive(mc *Matcher, taker, maker *Order, makerBook *levelDbBook, modifiedMakers *[]*Order, txs *[]*OrderTx, heightPoint upgrade.HeightPoint) error {
	*taker = *zzAfter
	return nil
}
func zzNextOrder(iter *levelDbBook) (*Order, bool)                     { return &Order{}, !zzBookEmpty }
func zzHandleMakers(mc *Matcher, makers []*Order)                      { zzMakers++ }
func zzHandleTxs(mc *Matcher, txs []*OrderTx)                          { zzTxs++ }
func zzTimestamp(db interfaces.VmDb, timestamp int64, preHash types.Hash) {}
func zzHeightPoint(db interfaces.VmDb) upgrade.HeightPoint              { return &zzPoint{} }
func zzTakerRes(mc *Matcher, taker *Order) {
	zzSaved++
	taker.CancelReason = zzReason
}

var zzReason int32

//verif:contract (*Matcher).doMatchTaker
//verif:prop P06
//verif:replace (*Matcher).recursiveTakeOrder zzRecursive
//verif:replace (*levelDbBook).nextOrder zzNextOrder
//verif:replace (*Matcher).handleModifiedMakers zzHandleMakers
//verif:replace (*Matcher).handleTxs zzHandleTxs
//verif:replace (*Matcher).handleTakerRes zzTakerRes
//verif:replace TryUpdateTimestamp zzTimestamp
//verif:replace GenerateHeightPoint zzHeightPoint
func ctDoMatch(o, after Order, empty bool, reason int32, h types.Hash) {
	zzAfter, zzBookEmpty, zzReason = &after, empty, reason
	zzSaved, zzMakers, zzTxs = 0, 0, 0
	mc := NewRawMatcher(nil)
	err := mc.doMatchTaker(&o, &levelDbBook{}, h)
	zv.Ensures("taker-settled-once", err == nil && zzSaved == 1)
	undone := reason == cancelledByFillOrKillNotFilled || reason == cancelledByExceedMarketOrderAmtThreshold
	zv.Ensures("executions-settled-unless-undone", empty && zzMakers == 0 && zzTxs == 0 || !empty && zzMakers == zzTxs && zzMakers == zvIf(undone, 0, 1))
}

func zvIf(b bool, x, y int) int {
	if b {
		return x
	}
	return y
}

//verif:contract filterTimeout
//verif:prop P06
//verif:replace GetTradeTimestamp zzTradeTime
//verif:replace IsVersion11DeprecateClearingExpiredOrder zzV11
func ctTimeout(o Order, now int64, v11 bool) {
	zzNow, zzV11Flag = now, v11
	zv.Requires(now >= 0 && o.Timestamp >= 0 && o.Timestamp < 1<<40)
	st, q, a := o.Status, amt(o.ExecutedQuantity), amt(o.ExecutedAmount)
	r := filterTimeout(nil, &o)
	zv.Ensures("only-when-expired", r == (now != 0 && !v11 && now > o.Timestamp+timeoutSecond))
	zv.Ensures("cancelled-or-kept", r && o.Status == Cancelled || !r && o.Status == st)
	zv.Ensures("executions-kept", amt(o.ExecutedQuantity).Eq(q) && amt(o.ExecutedAmount).Eq(a))
}

var zzNow int64
var zzV11Flag bool

func zzTradeTime(db interfaces.VmDb) int64 { return zzNow }
func zzV11(db interfaces.VmDb) bool        { return zzV11Flag }

//verif:contract checkMarketOrderAmtThreshold
//verif:prop P06
//verif:bytevals
func ctThreshold(o Order) {
	spent := amt(o.ExecutedAmount).Add(amt(o.ExecutedBaseFee)).Add(amt(o.ExecutedOperatorFee))
	st := o.Status
	q := amt(o.ExecutedQuantity)
	r := checkMarketOrderAmtThreshold(&o)
	zv.Ensures("only-over-the-limit", r == (o.Type == Market && spent.Gt(amt(o.MarketOrderAmtThreshold))))
	zv.Ensures("undone-or-kept", r && o.Status == Cancelled && amt(o.ExecutedAmount).Eq(zv.N(0)) && amt(o.ExecutedQuantity).Eq(zv.N(0)) && amt(o.ExecutedBaseFee).Eq(zv.N(0)) && amt(o.ExecutedOperatorFee).Eq(zv.N(0)) ||
		!r && o.Status == st && amt(o.ExecutedQuantity).Eq(q) && amt(o.ExecutedAmount).Add(amt(o.ExecutedBaseFee)).Add(amt(o.ExecutedOperatorFee)).Eq(spent))
}

var zzCalc, zzNext, zzExpired int
var zzNewStatus int32
var zzExpiry bool

func zzFilter(db interfaces.VmDb, maker *Order) bool {
	zzExpired++
	return zzExpiry
}
func zzCalculate(taker, maker *Order, marketInfo *MarketInfo, heightPoint upgrade.HeightPoint) *OrderTx {
	zzCalc++
	taker.Status = zzNewStatus
	return zzTx
}
func zzLastOrder(iter *levelDbBook) (*Order, bool) { zzNext++; return nil, false }

var zzTx *OrderTx

// One step of walking the book; the walk goes on by a tail call with the next order.
//
//verif:contract (*Matcher).recursiveTakeOrder
//verif:prop P06
//verif:replace filterTimeout zzFilter
//verif:replace calculateOrderAndTx zzCalculate
//verif:replace (*levelDbBook).nextOrder zzLastOrder
//verif:cases n 0 2
func ctTakeStep(n int, taker, maker Order, expired bool, st int32, p *zzPoint, m *MarketInfo) {
	zv.Requires(p != nil && m != nil && taker.Status == Pending)
	zv.Requires(st == FullyExecuted || st == PartialExecuted)
	zzCalc, zzNext, zzExpired, zzExpiry, zzNewStatus = 0, 0, 0, expired, st
	zzTx = &OrderTx{}
	mc := NewRawMatcher(nil)
	mc.MarketInfo = m
	makers := make([]*Order, 0, 20)
	txs := make([]*OrderTx, 0, 20)
	for i := 0; i < n; i++ {
		txs = append(txs, &OrderTx{})
		makers = append(makers, &Order{})
	}
	c := bytes.Compare(taker.Price, maker.Price)
	crosses := taker.Type == Market || !taker.Side && c >= 0 || taker.Side && c <= 0
	err := mc.recursiveTakeOrder(&taker, &maker, &levelDbBook{}, &makers, &txs, p)
	zv.Ensures("no-error", err == nil)
	trades := !expired && crosses && taker.Type != PostOnly
	zv.Ensures("trades-only-what-crosses", zzCalc == zvIf(trades, 1, 0) && len(txs) == n+zvIf(trades, 1, 0) && (!trades || txs[n] == zzTx))
	zv.Ensures("touched-makers-recorded", len(makers) == n+zvIf(trades || expired, 1, 0) && (!(trades || expired) || makers[n] == &maker))
	zv.Ensures("post-only-never-takes", !(taker.Type == PostOnly && crosses && !expired) || taker.Status == Cancelled && taker.CancelReason == cancelledByPostOnlyMatched)
	zv.Ensures("goes-on-while-open", zzNext == zvIf(expired || trades && st == PartialExecuted, 1, 0))
	zv.Ensures("price-priority-stops-the-walk", expired || crosses || zzNext == 0 && taker.Status == Pending)
}

//verif:contract (*Matcher).handleModifiedMakers
//verif:prop P06
//verif:bounded 2
//verif:replace (*Matcher).saveOrder zzSaveMaker
//verif:replace (*Matcher).emitOrderUpdate zzEmitUpd
//verif:replace (*Matcher).handleRefund zzRefundMaker
//verif:replace (*Matcher).deleteOrder zzDeleteMaker
//verif:cases n 0 2
func ctMakers(n int, a, b Order) {
	zzWhat = [3]int{}
	zzA, zzUpdLog = &a, 0
	mc := NewRawMatcher(nil)
	list := []*Order{&a, &b}[:n]
	fa, fb := a.Status == FullyExecuted || a.Status == Cancelled, b.Status == FullyExecuted || b.Status == Cancelled
	zv.Requires(!zv.Bytes(a.Id).Eq(zv.Bytes(b.Id)))
	mc.handleModifiedMakers(list)
	// 1: released, then deleted; 2: stored
	zv.Ensures("every-maker", n < 1 || zzWhat[0] == zvIf(fa, 11, 100))
	zv.Ensures("every-maker-2", n < 2 || zzWhat[1] == zvIf(fb, 11, 100))
	zv.Ensures("announced", zzUpdLog == n)
}

var zzWhat [3]int
var zzA *Order

func zzIdx(id []byte) int { return zvIf(zv.Bytes(id).Eq(zv.Bytes(zzA.Id)), 0, 1) }
func zzSaveMaker(mc *Matcher, order Order, isTaker bool) {
	zv.Assert("as-a-maker", !isTaker)
	zzWhat[zzIdx(order.Id)] += 100
}
func zzRefundMaker(mc *Matcher, order *Order) { zzWhat[zzIdx(order.Id)] += 1 }
func zzDeleteMaker(mc *Matcher, order *Order) { zzWhat[zzIdx(order.Id)] += 10 }
