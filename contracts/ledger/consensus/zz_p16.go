package consensus

//verif:file P16

import (
	"errors"
	"math/big"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/consensus/cdb"
	"github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/log15"
	zv "github.com/vitelabs/go-vite/v2/zzverif"
)

type zzLog struct{ log15.Logger }

func (zzLog) Debug(msg string, ctx ...interface{}) {}
func (zzLog) Info(msg string, ctx ...interface{})  {}
func (zzLog) Warn(msg string, ctx ...interface{})  {}
func (zzLog) Error(msg string, ctx ...interface{}) {}

// zzK is any position of the plan.
var zzK int

//verif:contract (*snapshotCs).verifyProducer
//verif:prop P16
//verif:cases c 0 1
func ctSlotOwner(c int, s snapshotCs, t time.Time, who types.Address, plans []*core.MemberPlan) {
	zv.Requires(len(plans) < 1<<20 && zv.Forall(0, len(plans), func(i int) bool { return plans[i] != nil }))
	owns := func(i int) bool { return plans[i].Member == who && plans[i].STime == t }
	if c == 0 {
		zv.Requires(0 <= zzK && zzK < len(plans) && owns(zzK))
		zv.Ensures("owner-of-that-slot", s.verifyProducer(t, who, &electionResult{Plans: plans}))
	} else {
		zv.Requires(zv.Forall(0, len(plans), func(i int) bool { return !owns(i) }))
		zv.Ensures("nobody-else", !s.verifyProducer(t, who, &electionResult{Plans: plans}))
		zv.Ensures("nothing-planned", !s.verifyProducer(t, who, nil))
	}
}

//verif:inv (*snapshotCs).verifyProducer 0
func invSlotOwner(t time.Time, address types.Address, result *electionResult, rangeindex int) {
	zv.Invariant("index", -1 <= rangeindex && rangeindex < len(result.Plans))
	zv.Invariant("none-so-far", !(0 <= zzK && zzK <= rangeindex && result.Plans[zzK].Member == address && result.Plans[zzK].STime == t))
}

//verif:contract (*contractDposCs).verifyProducer
//verif:prop P16
//verif:cases c 0 1
func ctContractMember(c int, s contractDposCs, who types.Address, plans []*core.MemberPlan) {
	zv.Requires(len(plans) < 1<<20 && zv.Forall(0, len(plans), func(i int) bool { return plans[i] != nil }))
	s.CheckLevel = 1
	if c == 0 {
		zv.Requires(0 <= zzK && zzK < len(plans) && plans[zzK].Member == who)
		zv.Ensures("a-member", s.verifyProducer(who, &electionResult{Plans: plans}))
	} else {
		zv.Requires(zv.Forall(0, len(plans), func(i int) bool { return plans[i].Member != who }))
		zv.Ensures("nobody-else", !s.verifyProducer(who, &electionResult{Plans: plans}))
		zv.Ensures("nothing-planned", !s.verifyProducer(who, nil))
	}
}

//verif:inv (*contractDposCs).verifyProducer 0
func invContractMember(contract *contractDposCs, address types.Address, result *electionResult, rangeindex int) {
	zv.Invariant("index", -1 <= rangeindex && rangeindex < len(result.Plans))
	zv.Invariant("none-so-far", contract.CheckLevel != 1 || !(0 <= zzK && zzK <= rangeindex && result.Plans[zzK].Member == address))
}

// zzTI has a round i from i*75 to (i+1)*75 seconds; see the contracts on Index2Time and Time2Index.
type zzTI struct{}

func (zzTI) Index2Time(index uint64) (time.Time, time.Time) {
	return time.Unix(int64(index)*75, 0), time.Unix(int64(index)*75+75, 0)
}
func (zzTI) Time2Index(t time.Time) uint64 { return uint64(t.Unix()) / 75 }

func zzInfo() core.GroupInfo {
	return core.GroupInfo{TimeIndex: zzTI{}, GenesisTime: time.Unix(0, 0), ConsensusGroupInfo: types.ConsensusGroupInfo{CheckLevel: 1}}
}

//verif:contract (*snapshotCs).genSnapshotProofTimeIndx
//verif:prop P16
func ctProofTime(idx uint16) {
	s := &snapshotCs{GroupInfo: zzInfo()}
	t, i := s.genSnapshotProofTimeIndx(uint64(idx))
	if idx < 2 {
		zv.Ensures("genesis", t.Unix() == 1 && i == 0)
	} else {
		zv.Ensures("end-of-the-round-before-last", t.Unix() == int64(idx-1)*75 && i == uint64(idx)-2)
	}
	zv.Ensures("same", s.GenProofTime(uint64(idx)).Unix() == t.Unix())
	zv.Ensures("at-least-a-round-before", t.Unix() == 1 || t.Unix()+75 <= int64(idx)*75)
}

//verif:contract (*contractDposCs).GenProofTime
//verif:prop P16
func ctContractProofTime(idx uint16) {
	c := &contractDposCs{GroupInfo: zzInfo()}
	t := c.GenProofTime(uint64(idx))
	if idx == 0 {
		zv.Ensures("genesis", t.Unix() == 1)
	} else {
		zv.Ensures("a-round-before", t.Unix() == int64(idx)*75-75)
	}
}

// stand-ins: the chain below the election, recording what it is asked for
type zzChain struct {
	Chain
	at      time.Time
	block   *ledger.SnapshotBlock
	latest  *ledger.SnapshotBlock
	seedFor types.Address
	seedT   time.Time
}

var zzC zzChain

var zzErr = errors.New("chain")

func (c *zzChain) GetSnapshotHeaderBeforeTime(t *time.Time) (*ledger.SnapshotBlock, error) {
	c.at = *t
	return c.block, nil
}
func (c *zzChain) GetLatestSnapshotBlock() *ledger.SnapshotBlock { return c.latest }
func (c *zzChain) GetRandomSeed(h types.Hash, n int) uint64 {
	zv.Assert("seed-of-the-proof-block", h == c.block.Hash && n == 25)
	return 7
}
func (c *zzChain) GetLastUnpublishedSeedSnapshotHeader(p types.Address, t time.Time) (*ledger.SnapshotBlock, error) {
	c.seedFor, c.seedT = p, t
	return c.block, nil
}
func (c *zzChain) GetSnapshotBlockByHash(h types.Hash) (*ledger.SnapshotBlock, error) {
	return c.block, nil
}

var zzE struct {
	cached, stored []types.Address
	hit            bool
	storedAt       types.Hash
	stores         int
	votes          []*core.Vote
	final          []*core.Vote
	hash           types.Hash
	height         uint64
	rateIdx        uint64
	rates          int
	filtered       int
	members        []types.Address
	err            error
	block          *ledger.SnapshotBlock
	index          uint64
}

func zzGetCache(c *chainRw, h types.Hash) ([]types.Address, bool) {
	zv.Assert("cache-of-the-proof-block", h == zzE.hash)
	return zzE.cached, zzE.hit
}
func zzPutCache(c *chainRw, h types.Hash, a []types.Address) {
	zzE.stored, zzE.storedAt = a, h
	zzE.stores++
}
func zzGetLRU(c *chainRw, g types.Gid, h types.Hash) ([]types.Address, bool) {
	zv.Assert("cache-of-the-proof-block", h == zzE.hash)
	return zzE.cached, zzE.hit
}
func zzPutLRU(c *chainRw, g types.Gid, h types.Hash, a []types.Address) {
	zzE.stored, zzE.storedAt = a, h
	zzE.stores++
}
func zzCalVotes(c *chainRw, info *core.GroupInfo, h ledger.HashHeight) ([]*core.Vote, error) {
	zv.Assert("votes-of-the-proof-block", h.Hash == zzE.hash && h.Height == zzE.height)
	return zzE.votes, zzE.err
}
func zzRates(c *chainRw, index uint64) (map[types.Address]int32, error) {
	zzE.rateIdx = index
	zzE.rates++
	return nil, nil
}

type zzAlgo struct{}

func (zzAlgo) ShuffleVotes(v []*core.Vote, h *ledger.HashHeight, info *core.SeedInfo) []*core.Vote {
	zv.Assert("after-the-election", zzE.filtered == 1 && len(v) == 1 && v[0] == zzE.votes[0] && h.Hash == zzE.hash && h.Height == zzE.height)
	zzE.filtered++
	return zzE.final
}
func (zzAlgo) FilterVotes(ctx *core.VoteAlgoContext) []*core.Vote {
	zzE.filtered++
	return zzE.votes
}
func (zzAlgo) FilterSimple(v []*core.Vote) ([]*core.Vote, []*core.Vote) { return nil, nil }

//verif:contract (*snapshotCs).calVotes
//verif:prop P16
//verif:replace (*chainRw).getSnapshotVoteCache zzGetCache
//verif:replace (*chainRw).updateSnapshotVoteCache zzPutCache
//verif:replace (*chainRw).CalVotes zzCalVotes
//verif:replace (*chainRw).GetSuccessRateByHour zzRates
//verif:cases c 0 2
func ctElect(c int, h types.Hash, height uint64, round uint16, a, b types.Address, x, y core.Vote) {
	zzE.hash, zzE.height = h, height
	x.Type, y.Type = nil, nil
	x.Balance = big.NewInt(1)
	zzE.cached, zzE.hit, zzE.stores, zzE.filtered, zzE.rates = []types.Address{a}, c == 0, 0, 0, 0
	zzE.votes, zzE.final, zzE.err = []*core.Vote{&x}, []*core.Vote{&x, &y}, nil
	if c == 2 {
		zzE.err = zzErr
	}
	at := time.Unix(int64(round)*75, 0)
	block := &ledger.SnapshotBlock{Hash: h, Height: height, Timestamp: &at}
	zzC.block = block
	s := &snapshotCs{GroupInfo: zzInfo(), rw: &chainRw{rw: &zzC}, algo: zzAlgo{}, log: zzLog{}}
	r, err := s.calVotes(block, 0)
	switch c {
	case 0:
		zv.Ensures("cached", err == nil && len(r) == 1 && r[0] == a && zzE.filtered == 0)
	case 1:
		zv.Ensures("elected-in-drawn-order", err == nil && zzE.filtered == 2 && len(r) == 2 && r[0] == x.Addr && r[1] == y.Addr)
		zv.Ensures("remembered-for-that-block", zzE.stores == 1 && zzE.storedAt == h && len(zzE.stored) == 2 && zzE.stored[0] == x.Addr && zzE.stored[1] == y.Addr)
		zv.Ensures("rates-up-to-the-proof", (zzE.rates == 1) == (round > 2) && (round <= 2 || zzE.rateIdx == uint64(round)-2))
	case 2:
		zv.Ensures("no-votes-no-result", err != nil && zzE.stores == 0)
	}
}

//verif:contract (*contractDposCs).calVotes
//verif:prop P16
//verif:replace (*chainRw).getVoteLRUCache zzGetLRU
//verif:replace (*chainRw).updateVoteLRUCache zzPutLRU
//verif:replace (*chainRw).CalVotes zzCalVotes
//verif:cases c 0 2
func ctContractElect(c int, h types.Hash, height uint64, a types.Address, x, y core.Vote) {
	zzE.hash, zzE.height = h, height
	zzE.cached, zzE.hit, zzE.stores, zzE.filtered = []types.Address{a}, c == 0, 0, 0
	zzE.votes, zzE.final, zzE.err = []*core.Vote{&x}, []*core.Vote{&x, &y}, nil
	if c == 2 {
		zzE.err = zzErr
	}
	block := &ledger.SnapshotBlock{Hash: h, Height: height}
	zzC.block = block
	s := &contractDposCs{GroupInfo: zzInfo(), rw: &chainRw{rw: &zzC}, algo: zzAlgo{}, log: zzLog{}}
	r, err := s.calVotes(block)
	switch c {
	case 0:
		zv.Ensures("cached", err == nil && len(r) == 1 && r[0] == a && zzE.filtered == 0)
	case 1:
		zv.Ensures("elected-in-drawn-order", err == nil && zzE.filtered == 2 && len(r) == 2 && r[0] == x.Addr && r[1] == y.Addr)
		zv.Ensures("remembered-for-that-block", zzE.stores == 1 && zzE.storedAt == h && len(zzE.stored) == 2 && zzE.stored[0] == x.Addr && zzE.stored[1] == y.Addr)
	case 2:
		zv.Ensures("no-votes-no-result", err != nil && zzE.stores == 0)
	}
}

func zzSnapVotes(s *snapshotCs, b *ledger.SnapshotBlock, index uint64) ([]types.Address, error) {
	zv.Assert("elected-at-the-proof-block", b == zzC.block)
	return zzE.members, zzE.err
}
func zzConVotes(s *contractDposCs, b *ledger.SnapshotBlock) ([]types.Address, error) {
	zv.Assert("elected-at-the-proof-block", b == zzC.block)
	return zzE.members, zzE.err
}

//verif:contract (*snapshotCs).ElectionIndex
//verif:prop P16
//verif:replace (*snapshotCs).calVotes zzSnapVotes
//verif:cases c 0 2
func ctElection(c int, idx uint16, a types.Address, h types.Hash) {
	zzE.members, zzE.err = []types.Address{a}, nil
	zzC.block = &ledger.SnapshotBlock{Hash: h}
	if c == 1 {
		zzE.err = zzErr
	}
	if c == 2 {
		zzC.block = nil
	}
	info := zzInfo()
	info.NodeCount, info.PerCount, info.Repeat, info.Interval = 1, 1, 1, 75
	s := &snapshotCs{GroupInfo: info, rw: &chainRw{rw: &zzC}, log: zzLog{}}
	r, err := s.ElectionIndex(uint64(idx))
	zv.Ensures("or-an-error", (err == nil) == (c == 0))
	if c == 0 {
		zv.Ensures("at-the-proof-time", zzC.at.Unix() == s.GenProofTime(uint64(idx)).Unix())
		zv.Ensures("its-round", r.Index == uint64(idx) && r.STime.Unix() == int64(idx)*75 && r.ETime.Unix() == int64(idx)*75+75)
		zv.Ensures("its-plan", len(r.Plans) == 1 && r.Plans[0].Member == a && r.Plans[0].STime.Unix() == int64(idx)*75)
	}
}

//verif:contract (*contractDposCs).electionAddrsIndex
//verif:prop P16
//verif:replace (*contractDposCs).calVotes zzConVotes
//verif:cases c 0 2
func ctContractElection(c int, idx uint16, a types.Address, h types.Hash) {
	zzE.members, zzE.err = []types.Address{a}, nil
	zzC.block = &ledger.SnapshotBlock{Hash: h}
	if c == 1 {
		zzE.err = zzErr
	}
	if c == 2 {
		zzC.block = nil
	}
	s := &contractDposCs{GroupInfo: zzInfo(), rw: &chainRw{rw: &zzC}, log: zzLog{}}
	r, b, err := s.electionAddrsIndex(uint64(idx))
	zv.Ensures("or-an-error", (err == nil) == (c == 0))
	if c == 0 {
		zv.Ensures("at-the-proof-time", zzC.at.Unix() == s.GenProofTime(uint64(idx)).Unix())
		zv.Ensures("members", len(r) == 1 && r[0] == a && b == zzC.block)
	}
}

var zzV struct {
	round uint64
	res   *electionResult
	err   error
	ok    bool
}

func zzElectionIndex(s *snapshotCs, index uint64) (*electionResult, error) {
	zzV.round = index
	return zzV.res, zzV.err
}
func zzVerify(s *snapshotCs, t time.Time, a types.Address, r *electionResult) bool {
	zv.Assert("checked-against-that-round", t == zzC.at && a == zzC.seedFor && r == zzV.res)
	return zzV.ok
}
func zzProducer(b *ledger.SnapshotBlock) types.Address { return zzC.seedFor }

//verif:contract (*snapshotCs).VerifySnapshotProducer
//verif:prop P16
//verif:replace (*snapshotCs).ElectionIndex zzElectionIndex
//verif:replace (*snapshotCs).verifyProducer zzVerify
//verif:replace github.com/vitelabs/go-vite/v2/interfaces/core:(*SnapshotBlock).Producer zzProducer
//verif:cases c 0 2
func ctVerify(c int, at uint32, who types.Address) {
	t := time.Unix(int64(at), 0)
	zzC.at, zzC.seedFor = t, who
	zzV.res, zzV.err, zzV.ok = &electionResult{}, nil, c == 0
	if c == 2 {
		zzV.err = zzErr
	}
	s := &snapshotCs{GroupInfo: zzInfo()}
	ok, err := s.VerifySnapshotProducer(&ledger.SnapshotBlock{Timestamp: &t})
	zv.Ensures("round-of-its-time", zzV.round == uint64(at)/75)
	zv.Ensures("verdict", ok == (c == 0) && (err != nil) == (c == 2))
	ok, err = s.VerifyProducer(who, t)
	zv.Ensures("verdict-by-address", ok == (c == 0) && (err != nil) == (c == 2) && zzV.round == uint64(at)/75)
}

//verif:contract (*snapshotCs).verifyProducerAndSeed
//verif:prop P16
//verif:replace (*snapshotCs).ElectionIndex zzElectionIndex
//verif:replace (*snapshotCs).verifyProducer zzVerify
//verif:replace github.com/vitelabs/go-vite/v2/interfaces/core:(*SnapshotBlock).Producer zzProducer
//verif:cases c 0 3
func ctSeed(c int, at, seedAt uint32, who types.Address, seed uint64, prev, seedHash types.Hash) {
	t, st := time.Unix(int64(at), 0), time.Unix(int64(seedAt), 0)
	zzC.at, zzC.seedFor = t, who
	zzV.res, zzV.err, zzV.ok = &electionResult{}, nil, c == 0 || c == 3
	if c == 2 {
		zzV.err = zzErr
	}
	zzC.block = &ledger.SnapshotBlock{PrevHash: prev, Timestamp: &st, SeedHash: &seedHash}
	if c == 3 {
		zzC.block = nil
	}
	s := &snapshotCs{GroupInfo: zzInfo(), rw: &chainRw{rw: &zzC}}
	ok, err := s.verifyProducerAndSeed(&ledger.SnapshotBlock{Timestamp: &t, Seed: seed})
	zv.Ensures("round-of-its-time", zzV.round == uint64(at)/75)
	switch c {
	case 0:
		want := seed == 0 || ledger.ComputeSeedHash(seed, prev, &st) == seedHash
		zv.Ensures("reveals-what-it-committed-to", ok == want && (err == nil) == want && zzC.seedFor == who)
	case 1:
		zv.Ensures("not-its-slot", !ok && err == nil)
	case 2:
		zv.Ensures("no-election", !ok && err != nil)
	case 3:
		zv.Ensures("nothing-committed", ok == (seed == 0) && (err == nil) == (seed == 0))
	}
}

func zzAddrs(s *contractDposCs, index uint64) ([]types.Address, *ledger.SnapshotBlock, error) {
	zzV.round = index
	return zzE.members, nil, zzE.err
}
func zzAccProducer(b *ledger.AccountBlock) types.Address { return b.ToAddress }

//verif:contract (*contractDposCs).VerifyAccountProducer
//verif:prop P16
//verif:bounded 2
//verif:replace (*contractDposCs).electionAddrsIndex zzAddrs
//verif:replace github.com/vitelabs/go-vite/v2/interfaces/core:(*AccountBlock).Producer zzAccProducer
//verif:cases c 0 1
func ctContractVerify(c int, head uint32, who, a, b types.Address) {
	t := time.Unix(int64(head), 0)
	zzC.latest = &ledger.SnapshotBlock{Timestamp: &t}
	zzE.members, zzE.err = []types.Address{a, b}, nil
	if c == 1 {
		zzE.err = zzErr
	}
	s := &contractDposCs{GroupInfo: zzInfo(), rw: &chainRw{rw: &zzC}}
	ok, err := s.VerifyAccountProducer(&ledger.AccountBlock{ToAddress: who})
	zv.Ensures("round-of-the-head", zzV.round == uint64(head)/75)
	zv.Ensures("members-only", ok == (c == 0 && (who == a || who == b)) && (err == nil) == (c == 0))
	bl := &ledger.AccountBlock{ToAddress: who}
	bad, err := s.verifyAccountsProducer([]*ledger.AccountBlock{bl})
	zv.Ensures("many-at-once", (err == nil) == (c == 0) && (c == 1 || (len(bad) == 0) == (who == a || who == b)) && (len(bad) == 0 || bad[0] == bl))
}

//verif:contract (*chainRw).genLruKey
//verif:prop P16
func ctLruKey(c chainRw, g1, g2 types.Gid, h1, h2 types.Hash) {
	zv.Ensures("one-entry-each", (c.genLruKey(g1, h1) == c.genLruKey(g2, h2)) == (g1 == g2 && h1 == h2))
}

// zzPoints is a chain of periods, each naming the hash of the one before it.
var zzP struct {
	p     [3]*cdb.Point
	first uint64
	n     int
}

func zzByIndex(_ *periodLinkedArray, i uint64) (*cdb.Point, error) {
	z := &zzP
	zv.Assert("starts-at-the-index", z.n == 0 && i == z.first)
	z.n++
	return z.p[0], nil
}
func zzWithProof(_ *periodLinkedArray, i uint64, h types.Hash) (*cdb.Point, error) {
	z := &zzP
	zv.Assert("the-one-before-and-its-hash", z.n > 0 && z.n < 3 && i == z.first-uint64(z.n) && h == z.p[z.n-1].PrevHash)
	p := z.p[z.n]
	z.n++
	return p, nil
}

// zzRate tells counts apart; the rate itself has its own contract.
func zzRate(c *cdb.Content) int32 { return int32(c.ExpectedNum*65536 + c.FactualNum) }

//verif:contract (*chainRw).GetSuccessRateByHour
//verif:prop P16
//verif:bounded 2
//verif:replace (*periodLinkedArray).GetByIndex zzByIndex
//verif:replace (*periodLinkedArray).GetByIndexWithProof zzWithProof
//verif:replace github.com/vitelabs/go-vite/v2/ledger/consensus/cdb:(*Content).Rate zzRate
func ctHourRate(idx uint64, x, y types.Address, e1, f1, e2, f2, e3, f3 uint8, h types.Hash) {
	c1, c2, d := cdb.Content{ExpectedNum: uint32(e1), FactualNum: uint32(f1)}, cdb.Content{ExpectedNum: uint32(e2), FactualNum: uint32(f2)}, cdb.Content{ExpectedNum: uint32(e3), FactualNum: uint32(f3)}
	zv.Requires(x != y && idx >= 2)
	p0 := &cdb.Point{PrevHash: h, Sbps: map[types.Address]*cdb.Content{x: &c1}}
	p1 := &cdb.Point{Sbps: map[types.Address]*cdb.Content{x: &c2, y: &d}}
	zzP.p, zzP.first, zzP.n = [3]*cdb.Point{p0, p1, nil}, idx, 0
	c := &chainRw{periodPoints: &periodLinkedArray{}}
	r, err := c.GetSuccessRateByHour(idx)
	zv.Ensures("read", err == nil && len(r) == 2)
	sum := cdb.Content{ExpectedNum: c1.ExpectedNum + c2.ExpectedNum, FactualNum: c1.FactualNum + c2.FactualNum}
	zv.Ensures("over-all-periods", r[x] == sum.Rate())
	zv.Ensures("over-its-period", r[y] == d.Rate())
}
