package vm

import "github.com/vitelabs/go-vite/v2/log15"

// native replay: the logger of the package, which a node sets up at start
func init() {
	if nodeConfig.log == nil {
		nodeConfig.log = log15.New("module", "verif")
		nodeConfig.log.SetHandler(log15.DiscardHandler())
	}
	if nodeConfig.interpreterLog == nil {
		nodeConfig.interpreterLog = nodeConfig.log
	}
}
