package vm

//verif:file P03

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"github.com/vitelabs/go-vite/v2/vm_db"
	zv "github.com/vitelabs/go-vite/v2/zzverif"
)

// p03 is what the assumed callees return: arbitrary, fixed by the harness.
type p03 struct {
	builtin       bool
	method        *contracts.ZZMethod
	methodErr     error
	qTotal, qAdd  uint64
	qErr          error
	multiplier    uint8
	runErr        error
	runList       []*ledger.AccountBlock
	runLeft       uint64
	code          []byte
	status, seeds bool
	sends         int
	sendErr       [3]error
}

var zzG p03

func zzNoInit(isTest, isTestParam bool) {}
func zzNoContracts(isTestParam bool)    {}

// zzBuiltin: either the address is not a built-in contract, or it has the method of the
// harness, or it has no such method.
func zzBuiltin(addr types.Address, methodSelector []byte, sbHeight uint64) (contracts.BuiltinContractMethod, bool, error) {
	if !zzG.builtin {
		return nil, false, nil
	}
	if zzG.methodErr != nil {
		return nil, true, zzG.methodErr
	}
	return zzG.method, true, nil
}

func zzMultiplier(db interfaces.VmDb, toAddr types.Address) (uint8, error) {
	return zzG.multiplier, zzG.qErr
}

// world is an account database over an arbitrary ledger, and a virtual machine at it.
func world(c *vm_db.ZZChain, addr *types.Address, sb, prev *types.Hash, g *p03) (*VM, interfaces.VmDb) {
	zv.Requires(c != nil && c.Sb != nil && c.Stake != nil && g != nil && g.method != nil && g.method.Fee != nil)
	InitVMConfig(false, false, false, false, "")
	zzG = *g
	zzG.sends = 0
	vm := NewVM(nil)
	vm.latestSnapshotHeight = c.Sb.Height
	vm.gasTable = util.QuotaTableByHeight(c.Sb.Height)
	return vm, vm_db.ZZNew(c, addr, sb, prev)
}

func bal(db interfaces.VmDb, id types.TokenTypeId) zv.Z {
	b, err := db.GetBalance(&id)
	zv.Assert("balance-readable", err == nil && b != nil)
	return zv.B(b)
}

//verif:contract (*VM).sendCall
//verif:prop P03
//verif:replace vm/quota:InitQuotaConfig zzNoInit
//verif:replace vm/contracts:InitContractsConfig zzNoContracts
//verif:replace vm/contracts:GetBuiltinContractMethod zzBuiltin
//verif:replace getQuotaMultiplierForS zzMultiplier
func ctSendCall(h *[14]uint64, c *vm_db.ZZChain, addr types.Address, sb, prev types.Hash, block *ledger.AccountBlock, t types.TokenTypeId, useQuota bool, total, add uint64, g *p03) {
	upgrade.ZZForks(h)
	vm, db := world(c, &addr, &sb, &prev, g)
	zv.Requires(block != nil && block.Amount != nil && block.BlockType == ledger.BlockTypeSendCall)
	amount, fee := zv.B(block.Amount), zv.N(0)
	zv.Requires(amount.Ge(zv.N(0)))
	if g.builtin {
		fee = zv.B(g.method.Fee)
		zv.Requires(fee.Ge(zv.N(0)))
	}
	tok := block.TokenId
	b0, a0, v0 := bal(db, t), bal(db, tok), bal(db, ledger.ViteTokenId)
	zv.Requires(b0.Ge(zv.N(0)) && a0.Ge(zv.N(0)) && v0.Ge(zv.N(0)))
	res, err := vm.sendCall(db, block, useQuota, total, add)
	spent := zv.If(t == tok, amount, zv.N(0)).Add(zv.If(t == ledger.ViteTokenId, fee, zv.N(0)))
	if err == nil {
		zv.Ensures("result", res != nil && res.AccountBlock == block && res.VmDb == db)
		zv.Ensures("debited-exactly", bal(db, t).Eq(b0.Sub(spent)))
		zv.Ensures("never-negative", bal(db, t).Ge(zv.N(0)))
		zv.Ensures("fee-recorded", zv.B(block.Fee).Eq(fee) && zv.B(block.Amount).Eq(amount) && block.TokenId == tok)
	} else {
		zv.Ensures("no-block-on-failure", res == nil)
	}
	short := a0.Lt(amount.Add(zv.If(tok == ledger.ViteTokenId, fee, zv.N(0)))) || v0.Lt(fee)
	zv.Ensures("insufficient-rejected", !short || err != nil)
	if err != nil {
		zv.Ensures("nothing-taken-on-failure", bal(db, t).Eq(b0))
	}
}

//verif:contract (*VM).sendRefund
//verif:prop P03
//verif:replace vm/quota:InitQuotaConfig zzNoInit
//verif:replace vm/contracts:InitContractsConfig zzNoContracts
//verif:replace getQuotaMultiplierForS zzMultiplier
func ctSendRefund(h *[14]uint64, c *vm_db.ZZChain, addr types.Address, sb, prev types.Hash, block *ledger.AccountBlock, t types.TokenTypeId, useQuota bool, total, add uint64, g *p03) {
	upgrade.ZZForks(h)
	vm, db := world(c, &addr, &sb, &prev, g)
	zv.Requires(block != nil && block.Amount != nil && block.BlockType == ledger.BlockTypeSendRefund)
	amount := zv.B(block.Amount)
	zv.Requires(amount.Ge(zv.N(0)))
	tok := block.TokenId
	b0, a0 := bal(db, t), bal(db, tok)
	zv.Requires(b0.Ge(zv.N(0)) && a0.Ge(zv.N(0)))
	res, err := vm.sendRefund(db, block, useQuota, total, add)
	spent := zv.If(err == nil && t == tok, amount, zv.N(0))
	zv.Ensures("debited-exactly", bal(db, t).Eq(b0.Sub(spent)))
	zv.Ensures("never-negative", bal(db, t).Ge(zv.N(0)))
	zv.Ensures("result", (err == nil) == (res != nil) && (res == nil || res.AccountBlock == block && res.VmDb == db))
	zv.Ensures("insufficient-rejected", a0.Ge(amount) || err != nil)
	zv.Ensures("no-fee", err != nil || zv.B(block.Fee).Eq(zv.N(0)))
}

//verif:contract (*VM).sendReward
//verif:prop P03
//verif:replace vm/quota:InitQuotaConfig zzNoInit
//verif:replace vm/contracts:InitContractsConfig zzNoContracts
//verif:replace getQuotaMultiplierForS zzMultiplier
func ctSendReward(h *[14]uint64, c *vm_db.ZZChain, addr types.Address, sb, prev types.Hash, block *ledger.AccountBlock, t types.TokenTypeId, useQuota bool, total, add uint64, g *p03) {
	upgrade.ZZForks(h)
	vm, db := world(c, &addr, &sb, &prev, g)
	zv.Requires(block != nil && block.Amount != nil)
	b0 := bal(db, t)
	res, err := vm.sendReward(db, block, useQuota, total, add)
	zv.Ensures("only-minting-contracts", err != nil || block.AccountAddress == types.AddressGovernance || block.AccountAddress == types.AddressAsset)
	zv.Ensures("balance-unchanged", bal(db, t).Eq(b0))
	zv.Ensures("result", (err == nil) == (res != nil) && (res == nil || res.AccountBlock == block && res.VmDb == db))
}

func zzStatus(code []byte) bool                { return zzG.status }
func zzCertainStatus(code []byte) (bool, bool) { return zzG.status, zzG.seeds }

//verif:contract (*VM).sendCreate
//verif:prop P03
//verif:replace vm/quota:InitQuotaConfig zzNoInit
//verif:replace vm/contracts:InitContractsConfig zzNoContracts
//verif:replace ContainsStatusCode zzStatus
//verif:replace ContainsCertainStatusCode zzCertainStatus
func ctSendCreate(h *[14]uint64, c *vm_db.ZZChain, addr types.Address, sb, prev types.Hash, block *ledger.AccountBlock, t types.TokenTypeId, useQuota bool, total, add uint64, g *p03) {
	upgrade.ZZForks(h)
	vm, db := world(c, &addr, &sb, &prev, g)
	zv.Requires(block != nil && block.Amount != nil && block.BlockType == ledger.BlockTypeSendCreate)
	amount := zv.B(block.Amount)
	zv.Requires(amount.Ge(zv.N(0)))
	tok := block.TokenId
	b0, a0, v0 := bal(db, t), bal(db, tok), bal(db, ledger.ViteTokenId)
	zv.Requires(b0.Ge(zv.N(0)) && a0.Ge(zv.N(0)) && v0.Ge(zv.N(0)))
	res, err := vm.sendCreate(db, block, useQuota, total, add)
	fee := zv.Dec("10000000000000000000")
	spent := zv.If(t == tok, amount, zv.N(0)).Add(zv.If(t == ledger.ViteTokenId, fee, zv.N(0)))
	if err == nil {
		zv.Ensures("debited-exactly", bal(db, t).Eq(b0.Sub(spent)))
		zv.Ensures("fee-recorded", zv.B(block.Fee).Eq(fee) && zv.B(block.Amount).Eq(amount))
		zv.Ensures("result", res != nil && res.AccountBlock == block && res.VmDb == db)
	} else {
		zv.Ensures("nothing-taken-on-failure", res == nil && bal(db, t).Eq(b0))
	}
	zv.Ensures("never-negative", bal(db, t).Ge(zv.N(0)))
	short := a0.Lt(amount.Add(zv.If(tok == ledger.ViteTokenId, fee, zv.N(0)))) || v0.Lt(fee)
	zv.Ensures("insufficient-rejected", !short || err != nil)
}

type zzQuotaDb interface {
	GetGlobalQuota() types.QuotaInfo
	GetQuotaUsedList(address types.Address) []types.QuotaInfo
	GetUnconfirmedBlocks(address types.Address) []*ledger.AccountBlock
	GetLatestAccountBlock(addr types.Address) (*ledger.AccountBlock, error)
	GetConfirmedTimes(blockHash types.Hash) (uint64, error)
}

// zzQuota: an arbitrary quota, or a failure.
func zzQuota(db zzQuotaDb, addr types.Address, stakeAmount *big.Int, difficulty *big.Int, sbHeight uint64) (uint64, uint64, error) {
	return zzG.qTotal, zzG.qAdd, zzG.qErr
}

// sumFor is what the blocks of a list take out of the balance of token t.
func sumFor(list []*ledger.AccountBlock, t types.TokenTypeId, fee zv.Z) zv.Z {
	s := zv.N(0)
	for i := 0; i < 2 && i < len(list); i++ {
		if list[i].BlockType != ledger.BlockTypeSendReward {
			s = s.Add(zv.If(list[i].TokenId == t, zv.B(list[i].Amount), zv.N(0)))
		}
		if list[i].BlockType == ledger.BlockTypeSendCall {
			s = s.Add(zv.If(t == ledger.ViteTokenId, fee, zv.N(0)))
		}
	}
	return s
}

// arrived is what a send block brings in of token t.
func arrived(send *ledger.AccountBlock, t types.TokenTypeId) zv.Z {
	return zv.If(send.TokenId == t, zv.B(send.Amount), zv.N(0))
}

//verif:contract doRefund
//verif:prop P03
//verif:replace vm/quota:InitQuotaConfig zzNoInit
//verif:replace vm/contracts:InitContractsConfig zzNoContracts
func ctDoRefund(h *[14]uint64, c *vm_db.ZZChain, addr types.Address, sb, prev types.Hash, block, send *ledger.AccountBlock, t types.TokenTypeId, g *p03, need bool, data []byte) {
	upgrade.ZZForks(h)
	vm, db := world(c, &addr, &sb, &prev, g)
	zv.Requires(block != nil && send != nil && send.Amount != nil && send.Fee != nil)
	zv.Requires(zv.B(send.Amount).Ge(zv.N(0)) && zv.B(send.Fee).Ge(zv.N(0)))
	b0 := bal(db, t)
	amount, fee := zv.B(send.Amount), zv.B(send.Fee)
	due := arrived(send, t).Add(zv.If(t == ledger.ViteTokenId, fee, zv.N(0)))
	flag := doRefund(vm, db, block, send, data, need, ledger.BlockTypeSendRefund)
	list := vm.sendBlockList
	zv.Ensures("funded", bal(db, t).Eq(b0.Add(due)))
	zv.Ensures("flag", flag == (len(list) > 0) && flag == (amount.Gt(zv.N(0)) || fee.Gt(zv.N(0)) || need))
	zv.Ensures("paid-back-exactly", len(list) <= 2)
	s := zv.N(0)
	for i := 0; i < 2 && i < len(list); i++ {
		s = s.Add(zv.If(list[i].TokenId == t, zv.B(list[i].Amount), zv.N(0)))
		zv.Ensures("to-the-sender", list[i].ToAddress == send.AccountAddress && list[i].AccountAddress == block.AccountAddress)
		zv.Ensures("kind", list[i].BlockType == ledger.BlockTypeSendRefund || list[i].BlockType == ledger.BlockTypeSendCall && zv.B(list[i].Amount).Eq(zv.N(0)))
	}
	zv.Ensures("refund-total", s.Eq(due))
	zv.Ensures("send-unchanged", zv.B(send.Amount).Eq(amount) && zv.B(send.Fee).Eq(fee))
}

//verif:contract (*VM).receiveReward
//verif:prop P03
//verif:replace vm/quota:InitQuotaConfig zzNoInit
//verif:replace vm/contracts:InitContractsConfig zzNoContracts
//verif:replace vm/quota:GetQuotaForBlock zzQuota
func ctReceiveReward(h *[14]uint64, c *vm_db.ZZChain, addr types.Address, sb, prev types.Hash, block, send *ledger.AccountBlock, t types.TokenTypeId, g *p03, meta *ledger.ContractMeta) {
	upgrade.ZZForks(h)
	vm, db := world(c, &addr, &sb, &prev, g)
	zv.Requires(block != nil && send != nil && send.Amount != nil && g.qErr == nil && g.qAdd <= g.qTotal)
	b0 := bal(db, t)
	res, retry, err := vm.receiveReward(db, block, send, meta)
	in := zv.If(err == nil, arrived(send, t), zv.N(0))
	zv.Ensures("credited-exactly", bal(db, t).Eq(b0.Add(in)))
	zv.Ensures("result", (err == nil) == (res != nil) && (res == nil || res.AccountBlock == block && res.VmDb == db) && (err != nil || !retry))
}

//verif:contract (*VM).receiveRefund
//verif:prop P03
//verif:replace vm/quota:InitQuotaConfig zzNoInit
//verif:replace vm/contracts:InitContractsConfig zzNoContracts
//verif:replace vm/quota:GetQuotaForBlock zzQuota
func ctReceiveRefund(h *[14]uint64, c *vm_db.ZZChain, addr types.Address, sb, prev types.Hash, block, send *ledger.AccountBlock, t types.TokenTypeId, g *p03, meta *ledger.ContractMeta) {
	upgrade.ZZForks(h)
	vm, db := world(c, &addr, &sb, &prev, g)
	zv.Requires(block != nil && send != nil && send.Amount != nil && g.qErr == nil && g.qAdd <= g.qTotal)
	b0 := bal(db, t)
	res, retry, err := vm.receiveRefund(db, block, send, meta)
	in := zv.If(err == nil, arrived(send, t), zv.N(0))
	zv.Ensures("credited-exactly", bal(db, t).Eq(b0.Add(in)))
	zv.Ensures("result", (err == nil) == (res != nil) && (res == nil || res.AccountBlock == block && res.VmDb == db) && (err != nil || !retry))
}

// zzRun: a contract execution either fails, or appends some requests to the list; it does
// not touch balances itself.
func zzRun(c *contract, vm *VM) ([]byte, error) {
	vm.sendBlockList = append(vm.sendBlockList, zzG.runList...)
	if zzG.runLeft < c.quotaLeft {
		c.quotaLeft = zzG.runLeft
	}
	return zzG.code, zzG.runErr
}

// zzSendList is the contract of doSendBlockList (proved for lists of up to two requests by
// ctSendList): every request of the list takes exactly its amount and its fee out of the
// balance, or the whole fails.
func zzSendList(vm *VM, db interfaces.VmDb) (interfaces.VmDb, error) {
	zzG.sends++
	if err := zzG.sendErr[zzG.sends]; err != nil {
		return db, err
	}
	for _, b := range vm.sendBlockList {
		if b.BlockType == ledger.BlockTypeSendReward {
			continue
		}
		v, _ := db.GetBalance(&b.TokenId)
		if v.Cmp(b.Amount) < 0 {
			return db, util.ErrInsufficientBalance
		}
		v.Sub(v, b.Amount)
		db.SetBalance(&b.TokenId, v)
		if b.BlockType == ledger.BlockTypeSendCall && zzG.builtin {
			v, _ = db.GetBalance(&ledger.ViteTokenId)
			if v.Cmp(zzG.method.Fee) < 0 {
				return db, util.ErrInsufficientBalance
			}
			v.Sub(v, zzG.method.Fee)
			db.SetBalance(&ledger.ViteTokenId, v)
		}
	}
	return db, nil
}

var zzKinds = [3]byte{ledger.BlockTypeSendCall, ledger.BlockTypeSendReward, ledger.BlockTypeSendRefund}

//verif:contract (*VM).doSendBlockList
//verif:prop P03
//verif:cases k 0 12
//verif:bounded 2
//verif:replace vm/quota:InitQuotaConfig zzNoInit
//verif:replace vm/contracts:InitContractsConfig zzNoContracts
//verif:replace vm/contracts:GetBuiltinContractMethod zzBuiltin
//verif:replace getQuotaMultiplierForS zzMultiplier
func ctSendList(k int, h *[14]uint64, c *vm_db.ZZChain, addr types.Address, sb, prev types.Hash, r1, r2 ledger.AccountBlock, t types.TokenTypeId, g *p03) {
	upgrade.ZZForks(h)
	n := 0
	if k >= 4 {
		n, r1.BlockType, r2.BlockType = 2, zzKinds[(k-4)/3], zzKinds[(k-4)%3]
	} else if k > 0 {
		n, r1.BlockType = 1, zzKinds[k-1]
	}
	vm, db := world(c, &addr, &sb, &prev, g)
	requests(&r1)
	requests(&r2)
	vm.sendBlockList = []*ledger.AccountBlock{&r1, &r2}[:n]
	fee := zv.N(0)
	if g.builtin {
		fee = zv.B(g.method.Fee)
		zv.Requires(fee.Ge(zv.N(0)))
	}
	t1, t2, a1, a2, to1, to2 := r1.TokenId, r2.TokenId, zv.B(r1.Amount), zv.B(r2.Amount), r1.ToAddress, r2.ToAddress
	b0 := bal(db, t)
	zv.Requires(b0.Ge(zv.N(0)) && bal(db, t1).Ge(zv.N(0)) && bal(db, t2).Ge(zv.N(0)) && bal(db, ledger.ViteTokenId).Ge(zv.N(0)))
	out := sumFor(vm.sendBlockList, t, fee)
	ndb, err := vm.doSendBlockList(db)
	zv.Ensures("same-db", ndb == db)
	zv.Ensures("never-negative", bal(db, t).Ge(zv.N(0)))
	zv.Ensures("same-list", len(vm.sendBlockList) == n && (n < 1 || vm.sendBlockList[0] == &r1) && (n < 2 || vm.sendBlockList[1] == &r2))
	zv.Ensures("requests-kept", r1.TokenId == t1 && r2.TokenId == t2 && zv.B(r1.Amount).Eq(a1) && zv.B(r2.Amount).Eq(a2) && r1.ToAddress == to1 && r2.ToAddress == to2)
	if err == nil {
		zv.Ensures("taken-exactly", bal(db, t).Eq(b0.Sub(out)))
	}
}

// settled states what a receive block does to the balance of token t: what arrives, less
// exactly what the requests it generates take out; when the request failed, everything that
// arrived goes back to its sender.
func settled(db interfaces.VmDb, b0 zv.Z, res *interfaces.VmAccountBlock, err error, block, send *ledger.AccountBlock, t types.TokenTypeId, fee zv.Z, deep bool) {
	if res == nil {
		zv.Ensures("no-silent-loss", err != nil)
		return
	}
	list := res.AccountBlock.SendBlockList
	back := zv.If(err != nil && !deep, zv.If(t == ledger.ViteTokenId, zv.B(send.Fee), zv.N(0)), zv.N(0))
	zv.Ensures("result", res.AccountBlock == block && res.VmDb == db)
	zv.Ensures("few", len(list) <= 2)
	zv.Ensures("balance-is-in-less-out", bal(db, t).Eq(b0.Add(arrived(send, t)).Add(back).Sub(sumFor(list, t, fee))))
	zv.Ensures("never-negative", bal(db, t).Ge(zv.N(0)))
	for i := 0; i < 2 && i < len(list); i++ {
		zv.Ensures("request-amount", zv.B(list[i].Amount).Ge(zv.N(0)))
		if err != nil {
			zv.Ensures("refund-to-the-sender", list[i].ToAddress == send.AccountAddress)
		}
	}
	if err != nil && !deep {
		s := zv.N(0)
		for i := 0; i < 2 && i < len(list); i++ {
			s = s.Add(zv.If(list[i].TokenId == t, zv.B(list[i].Amount), zv.N(0)))
			zv.Ensures("refund-kind", list[i].BlockType == ledger.BlockTypeSendRefund || list[i].BlockType == ledger.BlockTypeSendCall)
		}
		zv.Ensures("refund-total", s.Eq(arrived(send, t).Add(back)))
	}
	if deep {
		zv.Ensures("too-deep-sends-nothing", len(list) == 0 && err == util.ErrDepth)
	}
}

func receivable(block, send *ledger.AccountBlock) {
	zv.Requires(block.BlockType == ledger.BlockTypeReceive)
	block.SendBlockList = nil
	zv.Requires(send.Amount != nil && send.Fee != nil && zv.B(send.Amount).Ge(zv.N(0)) && zv.B(send.Fee).Ge(zv.N(0)))
}

//verif:contract (*VM).receiveCall
//verif:prop P03
//verif:replace vm/quota:InitQuotaConfig zzNoInit
//verif:replace vm/contracts:InitContractsConfig zzNoContracts
//verif:replace vm/contracts:GetBuiltinContractMethod zzBuiltin
//verif:replace vm/quota:GetQuotaForBlock zzQuota
func ctReceiveCallPlain(h *[14]uint64, c *vm_db.ZZChain, addr types.Address, sb, prev types.Hash, block, send ledger.AccountBlock, t types.TokenTypeId, g *p03) {
	upgrade.ZZForks(h)
	vm, db := world(c, &addr, &sb, &prev, g)
	receivable(&block, &send)
	zzG.builtin = false
	zv.Requires(g.qErr == nil && g.qAdd <= g.qTotal)
	b0 := bal(db, t)
	zv.Requires(b0.Ge(zv.N(0)))
	deep := checkDepth(db, &send)
	res, _, err := vm.receiveCall(db, &block, &send, nil)
	settled(db, b0, res, err, &block, &send, t, zv.N(0), deep)
	zv.Ensures("credited", err != nil || res != nil && len(block.SendBlockList) == 0)
}

//verif:contract (*VM).receiveCall
//verif:prop P03
//verif:cases n 0 3
//verif:bounded 1
//verif:replace vm/quota:InitQuotaConfig zzNoInit
//verif:replace vm/contracts:InitContractsConfig zzNoContracts
//verif:replace vm/contracts:GetBuiltinContractMethod zzBuiltin
//verif:replace vm/quota:GetQuotaForBlock zzQuota
//verif:replace (*VM).doSendBlockList zzSendList
func ctReceiveCallBuiltin(n int, h *[14]uint64, c *vm_db.ZZChain, addr types.Address, sb, prev types.Hash, block, send, r1 ledger.AccountBlock, t types.TokenTypeId, g *p03) {
	upgrade.ZZForks(h)
	zv.Requires(g != nil && g.method != nil)
	g.method.List = nil
	if n >= 2 {
		g.method.List = []*ledger.AccountBlock{&r1}
	}
	outcome(n, &g.method.RecvErr, &g.sendErr[1])
	addr = block.AccountAddress
	vm, db := world(c, &addr, &sb, &prev, g)
	receivable(&block, &send)
	zzG.builtin, zzG.methodErr = true, nil
	zv.Requires(g.qErr == nil && g.qAdd <= g.qTotal)
	zv.Requires(zv.B(g.method.Fee).Ge(zv.N(0)))
	requests(&r1)
	b0 := bal(db, t)
	zv.Requires(b0.Ge(zv.N(0)) && bal(db, r1.TokenId).Ge(zv.N(0)) && bal(db, send.TokenId).Ge(zv.N(0)) && bal(db, ledger.ViteTokenId).Ge(zv.N(0)))
	deep := checkDepth(db, &send)
	res, _, err := vm.receiveCall(db, &block, &send, c.Meta)
	settled(db, b0, res, err, &block, &send, t, zv.B(g.method.Fee), deep)
}

// outcome: the four ways an execution ends: it fails; it sends nothing; it sends a request;
// its request cannot be sent.
func outcome(n int, exec, send *error) {
	if n == 0 {
		zv.Requires(*exec != nil)
	} else {
		*exec = nil
	}
	if n == 3 {
		zv.Requires(*send != nil)
	} else if n != 0 {
		*send = nil
	}
}

func requests(r *ledger.AccountBlock) {
	zv.Requires(r.Amount != nil && zv.B(r.Amount).Ge(zv.N(0)))
	zv.Requires(r.BlockType == ledger.BlockTypeSendCall || r.BlockType == ledger.BlockTypeSendReward || r.BlockType == ledger.BlockTypeSendRefund)
}

//verif:contract (*VM).receiveCall
//verif:prop P03
//verif:cases n 0 3
//verif:bounded 1
//verif:replace vm/quota:InitQuotaConfig zzNoInit
//verif:replace vm/contracts:InitContractsConfig zzNoContracts
//verif:replace vm/contracts:GetBuiltinContractMethod zzBuiltin
//verif:replace vm/quota:GetQuotaForBlock zzQuota
//verif:replace (*VM).doSendBlockList zzSendList
//verif:replace (*contract).run zzRun
func ctReceiveCallCode(n int, h *[14]uint64, c *vm_db.ZZChain, addr types.Address, sb, prev types.Hash, block, send, r1 ledger.AccountBlock, t types.TokenTypeId, g *p03) {
	upgrade.ZZForks(h)
	zv.Requires(c != nil && c.Meta != nil && g != nil)
	g.runList = nil
	if n >= 2 {
		g.runList = []*ledger.AccountBlock{&r1}
	}
	outcome(n, &g.runErr, &g.sendErr[1])
	addr = block.AccountAddress
	vm, db := world(c, &addr, &sb, &prev, g)
	receivable(&block, &send)
	zzG.builtin = false
	zv.Requires(g.qErr == nil && g.qAdd <= g.qTotal)
	requests(&r1)
	b0 := bal(db, t)
	zv.Requires(b0.Ge(zv.N(0)) && bal(db, r1.TokenId).Ge(zv.N(0)) && bal(db, send.TokenId).Ge(zv.N(0)) && bal(db, ledger.ViteTokenId).Ge(zv.N(0)))
	deep := checkDepth(db, &send)
	res, _, err := vm.receiveCall(db, &block, &send, c.Meta)
	settled(db, b0, res, err, &block, &send, t, zv.N(0), deep)
}

//verif:contract (*VM).receiveCreate
//verif:prop P03
//verif:cases n 0 2
//verif:bounded 2
//verif:replace vm/quota:InitQuotaConfig zzNoInit
//verif:replace vm/contracts:InitContractsConfig zzNoContracts
//verif:replace vm/contracts:GetBuiltinContractMethod zzBuiltin
//verif:replace getQuotaMultiplierForS zzMultiplier
//verif:replace (*contract).run zzRun
func ctReceiveCreate(n int, h *[14]uint64, c *vm_db.ZZChain, addr types.Address, sb types.Hash, block, send, r1, r2 ledger.AccountBlock, t types.TokenTypeId, g *p03) {
	upgrade.ZZForks(h)
	zv.Requires(c != nil && c.Meta != nil && g != nil && len(send.Data) >= 14)
	g.runList = []*ledger.AccountBlock{&r1, &r2}[:n]
	var prev types.Hash
	vm, db := world(c, &addr, &sb, &prev, g)
	receivable(&block, &send)
	zzG.builtin = false
	requests(&r1)
	requests(&r2)
	b0 := bal(db, t)
	zv.Requires(b0.Ge(zv.N(0)) && bal(db, r1.TokenId).Ge(zv.N(0)) && bal(db, r2.TokenId).Ge(zv.N(0)) && bal(db, send.TokenId).Ge(zv.N(0)) && bal(db, ledger.ViteTokenId).Ge(zv.N(0)))
	res, _, err := vm.receiveCreate(db, &block, &send, c.Meta)
	if res == nil {
		zv.Ensures("no-silent-loss", err != nil)
		return
	}
	list := block.SendBlockList
	zv.Ensures("result", res.AccountBlock == &block && res.VmDb == db)
	zv.Ensures("few", len(list) <= 2)
	zv.Ensures("balance-is-in-less-out", bal(db, t).Eq(b0.Add(arrived(&send, t)).Sub(sumFor(list, t, zv.N(0)))) && bal(db, t).Ge(zv.N(0)))
	if err != nil {
		s := zv.N(0)
		for i := 0; i < 2 && i < len(list); i++ {
			s = s.Add(zv.If(list[i].TokenId == t, zv.B(list[i].Amount), zv.N(0)))
			zv.Ensures("refund-to-the-sender", list[i].ToAddress == send.AccountAddress && list[i].BlockType == ledger.BlockTypeSendRefund)
		}
		zv.Ensures("refund-total", s.Eq(arrived(&send, t)))
	}
}

//verif:contract (*VM).RunV2
//verif:prop P03
//verif:cases n 0 1
//verif:replace vm/quota:InitQuotaConfig zzNoInit
//verif:replace vm/contracts:InitContractsConfig zzNoContracts
func ctRunRefuses(n int, h *[14]uint64, c *vm_db.ZZChain, addr types.Address, sb, prev types.Hash, block, send ledger.AccountBlock, t types.TokenTypeId, g *p03) {
	upgrade.ZZForks(h)
	vm, db := world(c, &addr, &sb, &prev, g)
	block.SendBlockList = nil
	block.BlockType = [2]byte{ledger.BlockTypeSendReward, ledger.BlockTypeSendRefund}[n]
	b0 := bal(db, t)
	res, retried, err := vm.RunV2(db, &block, &send, nil)
	zv.Ensures("minting-and-refunds-are-not-requests", res == nil && err != nil && !retried)
	zv.Ensures("nothing-moved", bal(db, t).Eq(b0))
}
