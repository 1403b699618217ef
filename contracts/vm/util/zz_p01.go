package util

//verif:file P01

import (
	"github.com/vitelabs/go-vite/v2/common/helper"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	zv "github.com/vitelabs/go-vite/v2/zzverif"
)

//verif:contract MultipleCost
//verif:prop P01
func ctMultipleCost(cost uint64, quotaRatio uint8) {
	r, err := MultipleCost(cost, quotaRatio)
	exact := zv.U(cost).Mul(zv.U(uint64(quotaRatio)))
	zv.Ensures("below-common-multiplier-rejected", !(quotaRatio < 10) || (err == ErrInvalidQuotaMultiplier && r == 0))
	zv.Ensures("common-multiplier-is-identity", !(quotaRatio == 10) || (err == nil && r == cost))
	zv.Ensures("exact-tenths", !(quotaRatio > 10 && err == nil) || zv.U(r).Eq(exact.Div(zv.U(10))))
	zv.Ensures("never-cheaper", err != nil || r >= cost)
	zv.Ensures("rejects-exactly-overflow", !(quotaRatio > 10) || (err == ErrGasUintOverflow) == exact.Ge(zv.Pow2(64)))
	zv.Ensures("error-carries-no-cost", err == nil || r == 0)
}

//verif:contract UseQuota
//verif:prop P01
func ctUseQuota(quotaLeft, cost uint64) {
	r, err := UseQuota(quotaLeft, cost)
	zv.Ensures("deducts-exactly", err != nil || zv.U(r).Add(zv.U(cost)).Eq(zv.U(quotaLeft)))
	zv.Ensures("fails-iff-short", (err != nil) == (quotaLeft < cost))
	zv.Ensures("failure-is-out-of-quota", err == nil || (r == 0 && err == ErrOutOfQuota))
}

// A refund (flag false) never wraps as long as what is refunded was part of a uint64 total.
//
//verif:contract UseQuotaWithFlag
//verif:prop P01
func ctUseQuotaWithFlag(quotaLeft, cost uint64, flag bool) {
	zv.Requires(flag || zv.U(quotaLeft).Add(zv.U(cost)).Lt(zv.Pow2(64)))
	r, err := UseQuotaWithFlag(quotaLeft, cost, flag)
	zv.Ensures("charge-exact", !(flag && err == nil) || zv.U(r).Add(zv.U(cost)).Eq(zv.U(quotaLeft)))
	zv.Ensures("charge-fails-iff-short", !flag || (err != nil) == (quotaLeft < cost))
	zv.Ensures("failure-is-out-of-quota", err == nil || (r == 0 && err == ErrOutOfQuota))
	zv.Ensures("refund-exact", flag || (err == nil && zv.U(r).Eq(zv.U(quotaLeft).Add(zv.U(cost)))))
}

//verif:contract DataQuotaCost
//verif:prop P01
func ctDataQuotaCost(data []byte, quotaTable *QuotaTable) {
	zv.Requires(quotaTable.TxDataQuota > 0)
	unit := quotaTable.TxDataQuota
	r, err := DataQuotaCost(data, quotaTable)
	exact := zv.N(len(data)).Mul(zv.U(unit))
	zv.Ensures("exact", err != nil || zv.U(r).Eq(exact))
	zv.Ensures("rejects-exactly-overflow", (err != nil) == exact.Ge(zv.Pow2(64)))
	zv.Ensures("error-carries-no-cost", err == nil || (r == 0 && err == ErrGasUintOverflow))
}

//verif:contract BlockGasCost
//verif:prop P01
func ctBlockGasCost(data []byte, baseGas uint64, snapshotCount uint8, quotaTable *QuotaTable) {
	zv.Requires(quotaTable.TxDataQuota > 0)
	zv.Requires(zv.U(quotaTable.SnapshotQuota).Mul(zv.N(255)).Lt(zv.Pow2(64)))
	unit := quotaTable.TxDataQuota
	snap := quotaTable.SnapshotQuota
	r, err := BlockGasCost(data, baseGas, snapshotCount, quotaTable)
	exact := zv.U(baseGas).Add(zv.N(len(data)).Mul(zv.U(unit))).Add(zv.U(uint64(snapshotCount)).Mul(zv.U(snap)))
	zv.Ensures("exact-sum", err != nil || zv.U(r).Eq(exact))
	zv.Ensures("rejects-exactly-overflow", (err != nil) == exact.Ge(zv.Pow2(64)))
	zv.Ensures("error-carries-no-cost", err == nil || (r == 0 && err == ErrGasUintOverflow))
}

//verif:contract RequestQuotaCost
//verif:prop P01
func ctRequestQuotaCost(data []byte, quotaTable *QuotaTable) {
	zv.Requires(quotaTable.TxDataQuota > 0)
	base, unit := quotaTable.TxQuota, quotaTable.TxDataQuota
	exact := zv.U(base).Add(zv.N(len(data)).Mul(zv.U(unit)))
	zv.Requires(exact.Lt(zv.Pow2(64)))
	r, err := RequestQuotaCost(data, quotaTable)
	zv.Ensures("exact-sum", err == nil && zv.U(r).Eq(exact))
}

//verif:contract CalcQuotaUsed
//verif:prop P01
func ctCalcQuotaUsed(useQuota bool, quotaTotal, quotaAddition, quotaLeft uint64, outOfQuota bool, other bool) {
	zv.Requires(quotaLeft <= quotaTotal && quotaAddition <= quotaTotal)
	var err error
	if outOfQuota {
		err = ErrOutOfQuota
	} else if other {
		err = ErrInsufficientBalance
	}
	stake, used := CalcQuotaUsed(useQuota, quotaTotal, quotaAddition, quotaLeft, err)
	zv.Ensures("free-block-uses-nothing", useQuota || (stake == 0 && used == 0))
	zv.Ensures("out-of-quota-uses-nothing", !outOfQuota || (stake == 0 && used == 0))
	charged := useQuota && !outOfQuota
	zv.Ensures("used-is-total-minus-left", !charged || zv.U(used).Eq(zv.U(quotaTotal).Sub(zv.U(quotaLeft))))
	zv.Ensures("pow-quota-spent-first", !charged || zv.U(stake).Eq(zv.U(used).Sub(zv.U(quotaAddition)).Max(zv.N(0))))
	zv.Ensures("within-total", used <= quotaTotal && stake <= used)
}

//verif:contract IsPoW
//verif:prop P01
func ctIsPoW(nonce []byte) {
	b := &ledger.AccountBlock{Nonce: nonce}
	zv.Ensures("pow-iff-nonce", IsPoW(b) == (len(nonce) > 0))
}

func tableOK(q *QuotaTable) bool {
	return q.TxQuota == 21000 && q.TxDataQuota > 0 && q.TxDataQuota <= 68 && q.SnapshotQuota > 0 && q.SnapshotQuota < 1<<32 &&
		q.CreateTxRequestQuota > 0 && q.CreateTxResponseQuota > 0 && q.MemQuotaDivision > 0 && q.MemQuota < 1<<16 && q.CodeQuota < 1<<16 &&
		q.SstoreInitQuota >= q.SstoreMemQuota+q.SstoreNoopQuota &&
		q.SstoreResetQuota >= q.SstoreMemQuota+q.SstoreNoopQuota &&
		q.SstoreResetQuota >= q.SstoreMemQuota+q.SstoreCleanQuota &&
		q.SstoreNoopQuota+q.SstoreMemQuota >= q.SstoreCleanQuota
}

// Whatever the height, the table in force satisfies the side conditions the cost functions rely on.
//
//verif:contract QuotaTableByHeight
//verif:prop P01
func ctQuotaTables() {
	zv.Ensures("init", tableOK(&initQuotaTable))
	zv.Ensures("vite", tableOK(&viteQuotaTable))
	zv.Ensures("dexAgent", tableOK(&dexAgentQuotaTable))
	zv.Ensures("earth", tableOK(&earthQuotaTable))
	zv.Ensures("dexRobot", tableOK(&dexRobotQuotaTable))
	zv.Ensures("dexStable", tableOK(&dexStableMarketQuotaTable))
	zv.Ensures("v10", tableOK(&version10QuotaTable))
	zv.Ensures("v11", tableOK(&version11QuotaTable))
	zv.Ensures("vx", tableOK(&versionXQuotaTable))
}

//verif:lemma
//verif:prop P01
func lmSafeArith(x, y uint64) {
	s, o1 := helper.SafeAdd(x, y)
	zv.Ensures("safeadd-flag", o1 == zv.U(x).Add(zv.U(y)).Ge(zv.Pow2(64)))
	zv.Ensures("safeadd-value", o1 || zv.U(s).Eq(zv.U(x).Add(zv.U(y))))
	p, o2 := helper.SafeMul(x, y)
	zv.Ensures("safemul-flag", o2 == zv.U(x).Mul(zv.U(y)).Ge(zv.Pow2(64)))
	zv.Ensures("safemul-value", o2 || zv.U(p).Eq(zv.U(x).Mul(zv.U(y))))
}
