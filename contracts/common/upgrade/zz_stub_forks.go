package upgrade

// ZZForks installs an arbitrary fork schedule (specification only): version v+1 is active from height h[v] on.
func ZZForks(h *[14]uint64) {
	box := &upgradeBox{pointMap: make(map[uint32]*UpgradePoint), heightMap: make(map[uint64]bool)}
	for v := 0; v < 14; v++ {
		box.pointMap[uint32(v+1)] = &UpgradePoint{Version: uint32(v + 1), Height: h[v]}
	}
	upgrade = box
}
