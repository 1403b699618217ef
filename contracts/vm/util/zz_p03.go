package util

//verif:file P03

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/vm_db"
	zv "github.com/vitelabs/go-vite/v2/zzverif"
)

// bal is the balance of a token that the database reports.
func bal(db dbInterface, id types.TokenTypeId) zv.Z {
	b, err := db.GetBalance(&id)
	zv.Assert("balance-readable", err == nil && b != nil)
	return zv.B(b)
}

//verif:contract AddBalance
//verif:prop P03
func ctAddBalance(c *vm_db.ZZChain, addr types.Address, h types.Hash, t, other types.TokenTypeId, amount, prior *big.Int, touched bool) {
	zv.Requires(c != nil && amount != nil && prior != nil)
	db := vm_db.ZZNew(c, &addr, &h, &h)
	if touched {
		db.SetBalance(&t, new(big.Int).Set(prior))
	}
	a := zv.B(amount)
	b0, o0 := bal(db, t), bal(db, other)
	AddBalance(db, &t, amount)
	zv.Ensures("credited", bal(db, t).Eq(b0.Add(a)))
	zv.Ensures("others-unchanged", other == t || bal(db, other).Eq(o0))
	zv.Ensures("amount-unchanged", zv.B(amount).Eq(a))
}

//verif:contract SubBalance
//verif:prop P03
func ctSubBalance(c *vm_db.ZZChain, addr types.Address, h types.Hash, t, other types.TokenTypeId, amount, prior *big.Int, touched bool) {
	zv.Requires(c != nil && amount != nil && prior != nil)
	db := vm_db.ZZNew(c, &addr, &h, &h)
	if touched {
		db.SetBalance(&t, new(big.Int).Set(prior))
	}
	a := zv.B(amount)
	b0, o0 := bal(db, t), bal(db, other)
	ok := SubBalance(db, &t, amount)
	zv.Ensures("iff-covered", ok == b0.Ge(a))
	if ok {
		zv.Ensures("debited", bal(db, t).Eq(b0.Sub(a)))
	} else {
		zv.Ensures("refused-unchanged", bal(db, t).Eq(b0))
	}
	zv.Ensures("others-unchanged", other == t || bal(db, other).Eq(o0))
	zv.Ensures("amount-unchanged", zv.B(amount).Eq(a))
}
