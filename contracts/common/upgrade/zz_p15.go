package upgrade

//verif:file P15

import (
	zv "github.com/vitelabs/go-vite/v2/zzverif"
)

//verif:contract IsSeedUpgrade
//verif:prop P15
func ctActivation(h *[14]uint64, height uint64) {
	ZZForks(h)
	zv.Ensures("seed", IsSeedUpgrade(height) == (height >= h[0]))
	zv.Ensures("dex", IsDexUpgrade(height) == (height >= h[1]))
	zv.Ensures("dexfee", IsDexFeeUpgrade(height) == (height >= h[2]))
	zv.Ensures("stem", IsStemUpgrade(height) == (height >= h[3]))
	zv.Ensures("leaf", IsLeafUpgrade(height) == (height >= h[4]))
	zv.Ensures("earth", IsEarthUpgrade(height) == (height >= h[5]))
	zv.Ensures("mining", IsDexMiningUpgrade(height) == (height >= h[6]))
	zv.Ensures("robot", IsDexRobotUpgrade(height) == (height >= h[7]))
	zv.Ensures("stable", IsDexStableMarketUpgrade(height) == (height >= h[8]))
	zv.Ensures("v10", IsVersion10Upgrade(height) == (height >= h[9]))
	zv.Ensures("v11", IsVersion11Upgrade(height) == (height >= h[10]))
	zv.Ensures("v12", IsVersion12Upgrade(height) == (height >= h[11]))
	zv.Ensures("v13", IsVersion13Upgrade(height) == (height >= h[12]))
	zv.Ensures("vx", IsVersionXUpgrade(height) == (height >= h[13]))
	zv.Ensures("leaf-point", GetLeafUpgradePoint().Height == h[4])
	p := NewHeightPoint(height)
	zv.Ensures("height-point", p.IsDexFeeUpgrade() == (height >= h[2]) && p.IsVersion12Upgrade() == (height >= h[11]))
}

func pointsOK(pts []*UpgradePoint) bool {
	return zv.Forall(0, len(pts), func(i int) bool { return pts[i] != nil }) &&
		zv.Forall(0, len(pts), func(i int) bool {
			return zv.Forall(i, len(pts), func(j int) bool { return pts[i].Height <= pts[j].Height })
		})
}

//verif:contract upgradeBox.currentPoint
//verif:prop P15
func ctCurrentPoint(pts []*UpgradePoint, height uint64, k int) {
	zv.Requires(k >= 0 && k < len(pts) && pointsOK(pts))
	box := upgradeBox{sortedPoints: pts}
	r := box.currentPoint(height)
	zv.Ensures("reached", r == nil || r.Height <= height)
	zv.Ensures("the-latest-reached", pts[k].Height > height || (r != nil && r.Height >= pts[k].Height))
}

//verif:inv upgradeBox.currentPoint 0
func invCurrentPoint(rangeindex int, result *UpgradePoint, pts []*UpgradePoint, height uint64, k int) {
	zv.Invariant("range", rangeindex >= -1 && rangeindex < len(pts))
	zv.Invariant("so-far-reached", zv.Forall(0, rangeindex+1, func(i int) bool { return pts[i].Height <= height }))
	zv.Invariant("result", (rangeindex == -1 && result == nil) || (rangeindex >= 0 && result == pts[rangeindex]))
}

//verif:contract upgradeBox.latestPoint
//verif:prop P15
func ctLatestPoint(pts []*UpgradePoint, k int) {
	zv.Requires(k >= 0 && k < len(pts) && pointsOK(pts))
	box := upgradeBox{sortedPoints: pts}
	r := box.latestPoint()
	zv.Ensures("scheduled", r == nil || r.Height < EndlessHeight)
	zv.Ensures("the-latest-scheduled", pts[k].Height >= EndlessHeight || (r != nil && r.Height >= pts[k].Height))
}

//verif:inv upgradeBox.latestPoint 0
func invLatestPoint(rangeindex int, result *UpgradePoint, pts []*UpgradePoint, k int) {
	zv.Invariant("range", rangeindex >= -1 && rangeindex < len(pts))
	zv.Invariant("so-far", zv.Forall(0, rangeindex+1, func(i int) bool { return pts[i].Height < EndlessHeight }))
	zv.Invariant("result", (rangeindex == -1 && result == nil) || (rangeindex >= 0 && result == pts[rangeindex]))
}

// Every returned point is active, in schedule order, and no active point (witness k) is missing:
// with sorted heights the active points are exactly a prefix of the schedule.
//
//verif:contract upgradeBox.activePoints
//verif:prop P15
func ctActivePoints(pts []*UpgradePoint, height uint64, k int) {
	zv.Requires(k >= 0 && pointsOK(pts))
	box := upgradeBox{sortedPoints: pts}
	r := box.activePoints(height)
	zv.Ensures("no-more-than-scheduled", len(r) <= len(pts))
	zv.Ensures("prefix", k >= len(r) || (r[k] == pts[k] && pts[k].Height <= height))
	zv.Ensures("complete", k < len(r) || k >= len(pts) || pts[k].Height > height)
}

//verif:inv upgradeBox.activePoints 0
func invActivePoints(rangeindex int, result []*UpgradePoint, pts []*UpgradePoint, height uint64, k int) {
	zv.Invariant("range", rangeindex >= -1 && rangeindex < len(pts))
	zv.Invariant("own", zv.Disjoint(result, pts) && zv.Kept(pts))
	zv.Invariant("count", len(result) <= rangeindex+1)
	zv.Invariant("prefix", zv.Forall(0, len(result), func(i int) bool { return result[i] == pts[i] && pts[i].Height <= height }))
	zv.Invariant("complete", len(result) == rangeindex+1 || pts[len(result)].Height > height)
}

//verif:contract upgradeBox.isPoint
//verif:prop P15
func ctPoints(m map[uint64]bool, pm map[uint32]*UpgradePoint, height uint64, version uint32) {
	box := upgradeBox{heightMap: m, pointMap: pm}
	p := pm[version]
	zv.Ensures("is-point", box.isPoint(height) == m[height])
	zv.Ensures("point-of-version", box.getUpgradePoint(version) == p)
	zv.Ensures("active", box.isActive(version, height) == (p != nil && height >= p.Height))
}
