package contracts

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/util"
)

// ZZMethod is a built-in contract method with arbitrary results (an assumed contract: a
// built-in method does not touch balances itself).
type ZZMethod struct {
	Fee                      *big.Int
	FeeErr, SendErr, QuotErr error
	SendQuota, RecvQuota     uint64
	List                     []*ledger.AccountBlock
	RecvErr                  error
	Refund                   []byte
	NeedRefund               bool
}

func (m *ZZMethod) GetFee(block *ledger.AccountBlock) (*big.Int, error) {
	return new(big.Int).Set(m.Fee), m.FeeErr
}
func (m *ZZMethod) DoSend(db interfaces.VmDb, block *ledger.AccountBlock) error { return m.SendErr }
func (m *ZZMethod) GetSendQuota(data []byte, t *util.QuotaTable) (uint64, error) {
	return m.SendQuota, m.QuotErr
}
func (m *ZZMethod) DoReceive(db interfaces.VmDb, block *ledger.AccountBlock, sendBlock *ledger.AccountBlock, vm vmEnvironment) ([]*ledger.AccountBlock, error) {
	return m.List, m.RecvErr
}
func (m *ZZMethod) GetReceiveQuota(t *util.QuotaTable) uint64 { return m.RecvQuota }
func (m *ZZMethod) GetRefundData(sendBlock *ledger.AccountBlock, sbHeight uint64) ([]byte, bool) {
	return m.Refund, m.NeedRefund
}
