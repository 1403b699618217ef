package util

//verif:file P15

import (
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	zv "github.com/vitelabs/go-vite/v2/zzverif"
)

// The quota table in force is that of the newest fork with a table of its own that is active.
//
//verif:contract QuotaTableByHeight
//verif:prop P15
func ctTableInForce(h *[14]uint64, height uint64) {
	upgrade.ZZForks(h)
	want := &initQuotaTable
	if height >= h[1] {
		want = &viteQuotaTable
	}
	if height >= h[3] {
		want = &dexAgentQuotaTable
	}
	if height >= h[5] {
		want = &earthQuotaTable
	}
	if height >= h[7] {
		want = &dexRobotQuotaTable
	}
	if height >= h[8] {
		want = &dexStableMarketQuotaTable
	}
	if height >= h[9] {
		want = &version10QuotaTable
	}
	if height >= h[10] {
		want = &version11QuotaTable
	}
	if height >= h[13] {
		want = &versionXQuotaTable
	}
	zv.Ensures("table", QuotaTableByHeight(height) == want)
}
