package cdb

//verif:file P16

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	zv "github.com/vitelabs/go-vite/v2/zzverif"
)

//verif:contract (*Content).Rate
//verif:prop P16
func ctRate(c Content) {
	zv.Requires(c.FactualNum <= 4294)
	r := c.Rate()
	if c.ExpectedNum == 0 {
		zv.Ensures("nothing-expected", r == -1)
	} else {
		zv.Requires(c.FactualNum <= c.ExpectedNum)
		zv.Ensures("parts-per-million", zv.I(int64(r)).Eq(zv.U(uint64(c.FactualNum)).Mul(zv.N(1000000)).Div(zv.U(uint64(c.ExpectedNum)))))
		zv.Ensures("at-most-one", r >= 0 && r <= 1000000)
	}
}

//verif:contract (*Content).Merge
//verif:prop P16
func ctMerge(a, b Content) {
	was := a
	c := a.Copy()
	c.Merge(&b)
	zv.Ensures("both-counted", c.ExpectedNum == was.ExpectedNum+b.ExpectedNum && c.FactualNum == was.FactualNum+b.FactualNum)
	zv.Ensures("original-kept", a == was)
	c.AddNum(3, 2)
	zv.Ensures("added", c.ExpectedNum == was.ExpectedNum+b.ExpectedNum+3 && c.FactualNum == was.FactualNum+b.FactualNum+2)
}

func same(m map[types.Address]*Content, k types.Address, e, f uint32) bool {
	c, ok := m[k]
	return ok && c.ExpectedNum == e && c.FactualNum == f
}

//verif:contract (*Point).RightAppend
//verif:prop P16
//verif:bounded 2
func ctAppend(p, q Point, x, y, z types.Address, cx, cy, dy, dz Content) {
	zv.Requires(x != y && y != z && x != z)
	p.Sbps = map[types.Address]*Content{x: &cx, y: &cy}
	q.Sbps = map[types.Address]*Content{y: &dy, z: &dz}
	ph, pp := p.Hash, p.PrevHash
	cx0, cy0, dy0 := cx, cy, dy
	a := p
	err := a.RightAppend(&q)
	zv.Ensures("only-the-next", (err == nil) == (ph == q.PrevHash))
	if err == nil {
		zv.Ensures("spans-both", a.Hash == q.Hash && a.PrevHash == pp)
		zv.Ensures("counts-summed", len(a.Sbps) == 3 && same(a.Sbps, x, cx.ExpectedNum, cx.FactualNum) && same(a.Sbps, y, cy0.ExpectedNum+dy0.ExpectedNum, cy0.FactualNum+dy0.FactualNum) && same(a.Sbps, z, dz.ExpectedNum, dz.FactualNum))
	}
	b := p
	err = b.LeftAppend(&q)
	zv.Ensures("only-the-previous", (err == nil) == (q.Hash == pp))
	if err == nil {
		zv.Ensures("spans-both-left", b.Hash == ph && b.PrevHash == q.PrevHash)
		zv.Ensures("counts-summed-left", len(b.Sbps) == 3 && same(b.Sbps, x, cx.ExpectedNum, cx.FactualNum) && same(b.Sbps, y, cy0.ExpectedNum+dy0.ExpectedNum, cy0.FactualNum+dy0.FactualNum) && same(b.Sbps, z, dz.ExpectedNum, dz.FactualNum))
	}
	zv.Ensures("parts-kept", cx == cx0 && cy == cy0 && dy == dy0)
	zv.Ensures("empty-means-no-block", p.IsEmpty() == (ph == pp))
}

//verif:contract (*Point).Marshal
//verif:prop P16
//verif:bounded 1
//verif:cases votes 0 1
func ctPoint(votes int, p Point, x types.Address, cx Content, name string, n, total *big.Int) {
	withVotes := votes == 1
	zv.Requires(n != nil && total != nil && n.Sign() >= 0 && total.Sign() >= 0)
	p.Sbps = map[types.Address]*Content{x: &cx}
	p.Votes = nil
	if withVotes {
		p.Votes = &VoteContent{Details: map[string]*big.Int{name: n}, Total: total}
	}
	buf, err := p.Marshal()
	zv.Ensures("written", err == nil)
	q := &Point{}
	err = q.Unmarshal(buf)
	zv.Ensures("read", err == nil && q.Hash == p.Hash && q.PrevHash == p.PrevHash && len(q.Sbps) == 1 && same(q.Sbps, x, cx.ExpectedNum, cx.FactualNum))
	zv.Ensures("votes", (q.Votes != nil) == withVotes)
	if withVotes {
		zv.Ensures("vote-counts", zv.B(q.Votes.Total).Eq(zv.B(total)) && len(q.Votes.Details) == 1 && zv.B(q.Votes.Details[name]).Eq(zv.B(n)))
	}
}

//verif:contract AddrArr.Bytes
//verif:prop P16
//verif:bounded 2
func ctAddrArr(x, y types.Address) {
	var arr AddrArr
	r, err := arr.SetBytes(AddrArr([]types.Address{x, y}).Bytes())
	zv.Ensures("same-members-same-order", err == nil && len(r) == 2 && r[0] == x && r[1] == y)
}

//verif:contract CreatePointKey
//verif:prop P16
func ctKeys(p1, p2 byte, h1, h2 uint64, a, b types.Hash) {
	zv.Ensures("one-place-each", zv.Bytes(CreatePointKey(p1, h1)).Eq(zv.Bytes(CreatePointKey(p2, h2))) == (p1 == p2 && h1 == h2))
	zv.Ensures("one-result-each", zv.Bytes(CreateElectionResultKey(a)).Eq(zv.Bytes(CreateElectionResultKey(b))) == (a == b))
	zv.Ensures("apart", p1 == IndexElectionResult || !zv.Bytes(CreatePointKey(p1, h1)).Eq(zv.Bytes(CreateElectionResultKey(a))))
}
