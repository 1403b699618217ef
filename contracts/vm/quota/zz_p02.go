package quota

//verif:file P02

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/util"
	zv "github.com/vitelabs/go-vite/v2/zzverif"
)

//verif:contract calcQuotaByIndex
//verif:prop P02
func ctQuotaByIndex(i int) {
	q := calcQuotaByIndex(i)
	zv.Ensures("exact", i < 0 && q == 0 || i > sectionLen && q == 0 || i >= 0 && i <= sectionLen && zv.U(q).Eq(zv.I(int64(i)).Mul(zv.U(quotaForSection))))
}

//verif:contract getIndexByQuota
//verif:prop P02
func ctIndexByQuota(q uint64) {
	zv.Requires(q <= 1<<62)
	i, err := getIndexByQuota(q)
	if err == nil {
		zv.Ensures("in-range", i >= 0 && i <= sectionLen)
		zv.Ensures("enough", zv.I(int64(i)).Mul(zv.U(quotaForSection)).Ge(zv.U(q)))
		zv.Ensures("least", i == 0 || zv.I(int64(i-1)).Mul(zv.U(quotaForSection)).Lt(zv.U(q)))
	} else {
		zv.Ensures("out-of-range", zv.U(q).Gt(zv.I(int64(sectionLen)).Mul(zv.U(quotaForSection))))
	}
}

// table: a price list that does not decrease.
func table(list []*big.Int) bool {
	return len(list) == sectionLen+1 &&
		zv.Forall(0, len(list), func(i int) bool { return list[i] != nil }) &&
		zv.Forall(0, len(list), func(i int) bool {
			return zv.Forall(0, i, func(j int) bool { return zv.B(list[j]).Le(zv.B(list[i])) })
		})
}

//verif:contract getIndexInBigIntList
//verif:prop P02
//verif:modular
func ctIndexInList(x *big.Int, list []*big.Int, left, right int) {
	zv.Requires(x != nil && table(list))
	zv.Requires(0 <= left && left <= right && right < len(list))
	zv.Requires(left == 0 || zv.B(list[left]).Le(zv.B(x)))
	zv.Requires(right == len(list)-1 || zv.B(list[right+1]).Gt(zv.B(x)))
	zv.ModifiesNothing()
	r := getIndexInBigIntList(x, list, left, right)
	zv.Ensures("in-range", left <= r && r <= right)
	zv.Ensures("affordable", r == 0 || zv.B(list[r]).Le(zv.B(x)))
	zv.Ensures("greatest", r == len(list)-1 || zv.B(list[r+1]).Gt(zv.B(x)) || zv.B(list[r]).Eq(zv.B(x)))
}

func config(stake, difficulty []*big.Int) {
	zv.Requires(table(stake) && table(difficulty))
	quotaConfig.stakeAmountList, quotaConfig.difficultyList = stake, difficulty
}

//verif:contract calcStakeParam
//verif:prop P02
func ctStakeParam(qc *big.Int, congested bool, param *big.Int) {
	zv.Requires(qc != nil && param != nil && zv.B(qc).Ge(zv.N(0)) && zv.B(param).Ge(zv.N(0)))
	q0, p0 := zv.B(qc), zv.B(param)
	r := calcStakeParam(qc, congested, param)
	zv.Ensures("scaled", zv.B(r).Eq(zv.If(congested, p0.Mul(q0).Div(zv.Dec("1000000000000000000")), p0)))
	zv.Ensures("inputs-kept", zv.B(qc).Eq(q0) && zv.B(param).Eq(p0))
}

// zzDb is an arbitrary stored ledger, as the quota computation reads it.
type zzDb struct {
	All     types.QuotaInfo
	Used    []types.QuotaInfo
	Unc     []*ledger.AccountBlock
	Prev    *ledger.AccountBlock
	PrevErr error
	Conf    uint64
	ConfErr error
}

func (d *zzDb) GetGlobalQuota() types.QuotaInfo                                  { return d.All }
func (d *zzDb) GetQuotaUsedList(a types.Address) []types.QuotaInfo               { return d.Used }
func (d *zzDb) GetUnconfirmedBlocks(a types.Address) []*ledger.AccountBlock      { return d.Unc }
func (d *zzDb) GetLatestAccountBlock(a types.Address) (*ledger.AccountBlock, error) {
	return d.Prev, d.PrevErr
}
func (d *zzDb) GetConfirmedTimes(h types.Hash) (uint64, error) { return d.Conf, d.ConfErr }

//verif:contract isBlocked
//verif:prop P02
func ctIsBlocked(d *zzDb, addr types.Address) {
	zv.Requires(d != nil)
	b, left, err := isBlocked(d, addr)
	failed := types.IsContractAddr(addr) && d.PrevErr == nil && d.Prev != nil && d.Prev.BlockType == ledger.BlockTypeReceiveError
	zv.Ensures("errors-reported", (err != nil) == (types.IsContractAddr(addr) && d.PrevErr != nil || failed && d.ConfErr != nil))
	if err == nil {
		zv.Ensures("blocked-after-failure", b == (failed && d.Conf < 75))
		zv.Ensures("release", !b && left == 0 || b && zv.U(left).Add(zv.U(d.Conf)).Eq(zv.N(75)))
	}
}

//verif:contract CanPoW
//verif:prop P02
func ctCanPoW(d *zzDb, addr types.Address) {
	zv.Requires(d != nil)
	zv.Requires(zv.Forall(0, len(d.Unc), func(i int) bool { return d.Unc[i] != nil }))
	ok := CanPoW(d, addr)
	zv.Ensures("once", ok == zv.Forall(0, len(d.Unc), func(i int) bool { return !util.IsPoW(d.Unc[i]) }))
}

//verif:inv CanPoW 0
func invCanPoW(blocks []*ledger.AccountBlock, rangeindex int) {
	zv.Invariant("index", -1 <= rangeindex && rangeindex < len(blocks))
	zv.Invariant("none-so-far", zv.Forall(0, rangeindex+1, func(i int) bool { return !util.IsPoW(blocks[i]) }))
}

//verif:contract CalcQc
//verif:prop P02
func ctCalcQc(h *[14]uint64, d *zzDb, sb uint64, lo, hi uint64, qcs map[uint64]*big.Int) {
	upgrade.ZZForks(h)
	zv.Requires(d != nil && lo <= hi && hi < 1<<40 && d.All.QuotaUsedTotal < 1<<62)
	quotaConfig.qcIndexMin, quotaConfig.qcIndexMax, quotaConfig.qcMap = lo, hi, qcs
	qc, used, congested := CalcQc(d, sb)
	load := zv.U(d.All.QuotaUsedTotal)
	gap := zv.N(21000 * 74)
	zv.Ensures("congested-iff-loaded", congested == (upgrade.IsDexUpgrade(sb) && load.Gt(gap.Mul(zv.U(lo).Sub(zv.N(1))))))
	zv.Ensures("load", !upgrade.IsDexUpgrade(sb) || used == d.All.QuotaUsedTotal)
	if congested {
		k := (d.All.QuotaUsedTotal + 21000*74 - 1) / (21000 * 74)
		if k > hi {
			k = hi
		}
		zv.Ensures("ratio-of-the-load", qc == qcs[k])
	}
}

//verif:contract GetQuotaForBlock
//verif:prop P02
//verif:replace calcQuotaV3 zzCalc
//verif:unroll 4000
func ctQuotaForBlock(d *zzDb, addr types.Address, stake, diff *big.Int, sb uint64, c [4]uint64, e error) {
	zzC, zzE = c, e
	InitQuotaConfig(false, false)
	zv.Requires(c[2] <= c[0])
	total, add, err := GetQuotaForBlock(d, addr, stake, diff, sb)
	if e != nil {
		zv.Ensures("failure", zv.SameError(err, e) && total == 0 && add == 0)
		return
	}
	lim := zv.N(1000000)
	zv.Ensures("capped", err == nil && zv.U(total).Eq(zv.If(zv.U(c[0]).Gt(lim), lim, zv.U(c[0]))) && zv.U(add).Eq(zv.If(zv.U(c[2]).Gt(lim), lim, zv.U(c[2]))))
	zv.Ensures("addition-within-total", add <= total && total <= 1000000)
}

var zzC [4]uint64
var zzE error

func zzCalc(db quotaDb, addr types.Address, stakeAmount *big.Int, difficulty *big.Int, sbHeight uint64) (quotaTotal, quotaStake, quotaAddition, snapshotCurrentQuota, quotaAvg uint64, blocked bool, blockReleaseHeight uint64, err error) {
	return zzC[0], zzC[1], zzC[2], zzC[3], 0, false, 0, zzE
}

//verif:contract calcQuotaV3
//verif:prop P02
//verif:replace calcQuotaTotal zzCalc
//verif:replace CanPoW zzCan
func ctOnePoW(d *zzDb, addr types.Address, stake, diff *big.Int, sb uint64, c [4]uint64, e error, can bool) {
	zzC, zzE, zzCanPoW = c, e, can
	total, st, add, cur, _, _, _, err := calcQuotaV3(d, addr, stake, diff, sb)
	pow := diff != nil && zv.B(diff).Gt(zv.N(0))
	zv.Ensures("one-proof-per-snapshot", !(pow && !can) || err != nil && total == 0 && add == 0)
	zv.Ensures("otherwise-computed", pow && !can || zv.SameError(err, e) && total == c[0] && st == c[1] && add == c[2] && cur == c[3])
}

var zzCanPoW bool

func zzCan(db quotaDb, address types.Address) bool { return zzCanPoW }

//verif:contract CalcBlockQuotaUsed
//verif:prop P02
//verif:replace calcPoWQuotaByQc zzPoW
func ctBlockQuotaUsed(d *zzDb, block *ledger.AccountBlock, sb, pow uint64) {
	zv.Requires(block != nil)
	zzPoWQuota = pow
	r, err := CalcBlockQuotaUsed(d, block, sb)
	q := zv.U(block.QuotaUsed)
	zv.Ensures("stake-part", err == nil && zv.U(r).Eq(zv.If(!util.IsPoW(block), q, zv.If(q.Gt(zv.U(pow)), q.Sub(zv.U(pow)), zv.N(0)))))
}

var zzPoWQuota uint64

func zzPoW(db quotaDb, difficulty *big.Int, sbHeight uint64) uint64 { return zzPoWQuota }

//verif:contract calcStakeQuota
//verif:prop P02
func ctStakeQuota(stakes, diffs []*big.Int, qc *big.Int, congested bool, stake *big.Int) {
	config(stakes, diffs)
	zv.Requires(qc != nil && zv.B(qc).Ge(zv.N(0)))
	q := calcStakeQuota(qc, congested, stake)
	if stake == nil || zv.B(stake).Le(zv.N(0)) {
		zv.Ensures("nothing-for-nothing", q == 0)
		return
	}
	eff := zv.If(congested, zv.B(stake).Mul(zv.B(qc)).Div(zv.Dec("1000000000000000000")), zv.B(stake))
	zv.Ensures("whole-sections", q%280 == 0 && q <= 280*3571)
	i := int(q / 280)
	zv.Ensures("paid-for", i == 0 || zv.B(stakes[i]).Le(eff))
	zv.Ensures("all-that-is-paid-for", i == 3571 || zv.B(stakes[i+1]).Gt(eff) || zv.B(stakes[i]).Eq(eff))
}

//verif:contract calcPoWQuota
//verif:prop P02
func ctPoWQuota(stakes, diffs []*big.Int, qc *big.Int, congested bool, diff *big.Int) {
	config(stakes, diffs)
	zv.Requires(qc != nil && zv.B(qc).Ge(zv.N(0)))
	q := calcPoWQuota(qc, congested, diff)
	if diff == nil || zv.B(diff).Le(zv.N(0)) {
		zv.Ensures("nothing-for-nothing", q == 0)
		return
	}
	eff := zv.If(congested, zv.B(diff).Mul(zv.B(qc)).Div(zv.Dec("1000000000000000000")), zv.B(diff))
	zv.Ensures("whole-sections", q%280 == 0 && q <= 280*3571)
	i := int(q / 280)
	zv.Ensures("paid-for", i == 0 || zv.B(diffs[i]).Le(eff))
	zv.Ensures("all-that-is-paid-for", i == 3571 || zv.B(diffs[i+1]).Gt(eff) || zv.B(diffs[i]).Eq(eff))
}

//verif:contract calcStakeTargetParam
//verif:prop P02
func ctStakeTarget(qc *big.Int, target *big.Int) {
	zv.Requires(qc != nil && target != nil && zv.B(qc).Gt(zv.N(0)) && zv.B(qc).Le(zv.Dec("1000000000000000000")) && zv.B(target).Ge(zv.N(0)))
	unit := zv.Dec("1000000000000000000")
	r, err := calcStakeTargetParam(qc, true, target)
	if err == nil {
		zv.Ensures("enough", zv.B(r).Mul(zv.B(qc)).Div(unit).Ge(zv.B(target)))
		zv.Ensures("word", zv.B(r).Lt(zv.Pow2(256)))
	}
}

//verif:inv calcStakeTargetParam 0
func invStakeTarget(qc, target, newTarget *big.Int) {
	zv.Invariant("kept", zv.B(newTarget).Ge(zv.N(0)))
}

//verif:contract CalcStakeAmountByQuota
//verif:prop P02
func ctStakeAmount(stakes, diffs []*big.Int, q uint64) {
	config(stakes, diffs)
	a, err := CalcStakeAmountByQuota(q)
	zv.Ensures("refused-beyond-the-table", (err != nil) == (q > 280*3571))
	if err == nil {
		i := int((q + 279) / 280)
		zv.Ensures("price-of-the-section", q == 0 && zv.B(a).Eq(zv.N(0)) || q > 0 && zv.B(a).Eq(zv.B(stakes[i])) && a != stakes[i])
	}
}

// zzTables: the price tables of both networks do not decrease, start at nothing, and cover
// every section; the congestion table covers every load.
//
//verif:lemma
//verif:prop P02
//verif:unroll 4000
//verif:cases net 0 1
func lmTables(net int) {
	InitQuotaConfig(false, net == 1)
	s, d := quotaConfig.stakeAmountList, quotaConfig.difficultyList
	zv.Assert("complete", len(s) == sectionLen+1 && len(d) == sectionLen+1)
	zv.Assert("first", zv.B(s[0]).Eq(zv.N(0)) && zv.B(d[0]).Eq(zv.N(0)))
	for i := 1; i <= 3571; i++ {
		zv.Assert("rising", zv.B(s[i-1]).Le(zv.B(s[i])) && zv.B(d[i-1]).Le(zv.B(d[i])))
	}
	zv.Assert("congestion-range", quotaConfig.qcIndexMin <= quotaConfig.qcIndexMax)
	for i := uint64(51); i <= 500; i++ {
		q := quotaConfig.qcMap[i]
		zv.Assert("congestion-ratio", q != nil && zv.B(q).Gt(zv.N(0)) && zv.B(q).Le(zv.Dec("1000000000000000000")))
		zv.Assert("congestion-falls", i == 51 || zv.B(q).Le(zv.B(quotaConfig.qcMap[i-1])))
	}
}

//verif:contract calcQuotaTotal
//verif:prop P02
//verif:cases n 0 4
//verif:bounded 4
//verif:noinv
//verif:replace calcStakeQuota zzStakeQ
//verif:replace calcPoWQuota zzPoWQ
//verif:replace CalcQc zzQc
func ctQuotaTotal(n int, u [4]types.QuotaInfo, d *zzDb, addr types.Address, stake, diff *big.Int, sb uint64, sq, pq uint64) {
	zv.Requires(d != nil && sq <= 280*3571 && pq <= 280*3571)
	d.Used = u[:n]
	zzSQ, zzPQ = sq, pq
	left, used, blocks, spent := zv.N(0), zv.N(0), zv.N(0), zv.N(0)
	for i := 0; i < n; i++ {
		zv.Requires(u[i].QuotaTotal < 1<<40 && u[i].QuotaUsedTotal < 1<<40 && u[i].BlockCount < 1<<40)
		left = left.Add(zv.U(sq))
		used, blocks = used.Add(zv.U(u[i].QuotaUsedTotal)), blocks.Add(zv.U(u[i].BlockCount))
		if i < n-1 {
			q := zv.U(u[i].QuotaTotal)
			left = zv.If(left.Ge(q), left.Sub(q), zv.N(0))
		} else {
			spent = zv.U(u[i].QuotaTotal)
		}
	}
	b, rel, berr := isBlocked(d, addr)
	total, st, add, cur, avg, blocked, release, err := calcQuotaTotal(d, addr, stake, diff, sb)
	if berr != nil {
		zv.Ensures("unknown-state", err != nil && total == 0 && add == 0)
		return
	}
	zv.Ensures("stake-part", st == sq && zv.U(cur).Eq(left) && blocked == b && release == rel)
	zv.Ensures("average", zv.U(avg).Eq(zv.If(blocks.Gt(zv.N(0)), used.Div(zv.If(blocks.Gt(zv.N(0)), blocks, zv.N(1))), zv.N(0))))
	if left.Lt(spent) {
		zv.Ensures("overspent", err != nil && total == 0 && add == 0)
		return
	}
	zv.Ensures("accumulates", err == nil && zv.U(total).Eq(zv.If(b, zv.N(0), left.Sub(spent).Add(zv.U(pq)))) && zv.U(add).Eq(zv.If(b, zv.N(0), zv.U(pq))))
}

var zzSQ, zzPQ uint64

func zzStakeQ(qc *big.Int, isCongestion bool, stakeAmount *big.Int) uint64 { return zzSQ }
func zzPoWQ(qc *big.Int, isCongestion bool, difficulty *big.Int) uint64    { return zzPQ }
func zzQc(db quotaDb, sbHeight uint64) (*big.Int, uint64, bool)           { return zzQcV, 0, zzCong }

var zzQcV *big.Int
var zzCong bool

//verif:contract calcQuotaTotal
//verif:prop P02
//verif:replace calcStakeQuota zzStakeQ
//verif:replace calcPoWQuota zzPoWQ
//verif:replace CalcQc zzQc
func ctQuotaTotalBound(d *zzDb, addr types.Address, stake, diff *big.Int, sb uint64, sq, pq uint64) {
	zv.Requires(d != nil && sq <= 280*3571 && pq <= 280*3571 && len(d.Used) < 1<<30)
	zzSQ, zzPQ = sq, pq
	total, _, add, cur, _, _, _, err := calcQuotaTotal(d, addr, stake, diff, sb)
	most := zv.I(int64(len(d.Used))).Mul(zv.U(sq))
	zv.Ensures("no-more-than-staked-for", zv.U(cur).Le(most) && zv.U(total).Le(most.Add(zv.U(add))))
	zv.Ensures("addition", err == nil && (add == pq || add == 0) || err != nil && total == 0 && add == 0)
}

//verif:inv calcQuotaTotal 0
func invQuotaTotal(quotaTotal, quotaStake uint64, rangeindex int, quotaList []types.QuotaInfo) {
	zv.Invariant("index", -1 <= rangeindex && rangeindex < len(quotaList)-1)
	zv.Invariant("bounded", zv.U(quotaTotal).Le(zv.I(int64(rangeindex+1)).Mul(zv.U(quotaStake))))
}

//verif:contract CalcPoWDifficulty
//verif:prop P02
//verif:replace CalcQc zzQc
func ctPoWDifficulty(stakes, diffs []*big.Int, d *zzDb, need uint64, q types.Quota, sb uint64, qc *big.Int, cong bool) {
	config(stakes, diffs)
	zv.Requires(qc != nil && zv.B(qc).Gt(zv.N(0)) && zv.B(qc).Le(zv.Dec("1000000000000000000")))
	zv.Requires(zv.Forall(0, len(diffs), func(i int) bool { return zv.B(diffs[i]).Ge(zv.N(0)) }))
	zzQcV, zzCong = qc, cong
	r, err := CalcPoWDifficulty(d, need, q, sb)
	zv.Ensures("limit", need <= 1000000 || err != nil)
	if err == nil {
		i := int((need + 279) / 280)
		eff := zv.If(cong, zv.B(r).Mul(zv.B(qc)).Div(zv.Dec("1000000000000000000")), zv.B(r))
		zv.Ensures("pays-for-the-quota", q.Current() >= need && zv.B(r).Eq(zv.N(0)) || i <= 3571 && eff.Ge(zv.B(diffs[i])))
	}
}
