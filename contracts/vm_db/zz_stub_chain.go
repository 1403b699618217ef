package vm_db

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
)

// ZZChain is the stored ledger under the database of an account, as contracts see it: an
// arbitrary state that the code under verification can only read.
type ZZChain struct {
	Chain
	Bal   map[types.TokenTypeId]*big.Int
	Sb    *ledger.SnapshotBlock
	Depth uint16
	Stake *big.Int
	Meta  *ledger.ContractMeta
	Code  []byte
	Vals  map[string][]byte
	Prev  *ledger.AccountBlock
	Used  []types.QuotaInfo
	All   types.QuotaInfo
	Unc   []*ledger.AccountBlock
	Conf  uint64
}

func (c *ZZChain) GetBalance(addr types.Address, id types.TokenTypeId) (*big.Int, error) {
	b := new(big.Int)
	if v := c.Bal[id]; v != nil {
		b.Set(v)
	}
	return b, nil
}
func (c *ZZChain) GetValue(addr types.Address, key []byte) ([]byte, error) {
	return c.Vals[string(key)], nil
}
func (c *ZZChain) GetSnapshotHeaderByHash(h types.Hash) (*ledger.SnapshotBlock, error) {
	return c.Sb, nil
}
func (c *ZZChain) GetCallDepth(h types.Hash) (uint16, error) { return c.Depth, nil }
func (c *ZZChain) GetStakeBeneficialAmount(addr types.Address) (*big.Int, error) {
	return c.Stake, nil
}
func (c *ZZChain) GetContractMeta(a types.Address) (*ledger.ContractMeta, error) {
	return c.Meta, nil
}
func (c *ZZChain) GetContractMetaInSnapshot(a types.Address, h uint64) (*ledger.ContractMeta, error) {
	return c.Meta, nil
}
func (c *ZZChain) GetContractCode(a types.Address) ([]byte, error) { return c.Code, nil }
func (c *ZZChain) GetAccountBlockByHash(h types.Hash) (*ledger.AccountBlock, error) {
	return c.Prev, nil
}
func (c *ZZChain) GetLatestAccountBlock(a types.Address) (*ledger.AccountBlock, error) {
	return c.Prev, nil
}
func (c *ZZChain) GetUnconfirmedBlocks(a types.Address) []*ledger.AccountBlock { return c.Unc }
func (c *ZZChain) GetQuotaUsedList(a types.Address) []types.QuotaInfo         { return c.Used }
func (c *ZZChain) GetGlobalQuota() types.QuotaInfo                            { return c.All }
func (c *ZZChain) GetConfirmedTimes(h types.Hash) (uint64, error)             { return c.Conf, nil }

// ZZNew is the account database over a stored state.
func ZZNew(c *ZZChain, addr *types.Address, sb, prev *types.Hash) interfaces.VmDb {
	db, _ := NewVmDb(c, addr, sb, prev)
	return db
}
