package core

//verif:file P16

import (
	"math/big"
	"math/rand"
	"sort"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	zv "github.com/vitelabs/go-vite/v2/zzverif"
)

// round is a group with a start and whole-second rounds.
func zzRound(start, iv int64) TimeIndex {
	zv.Requires(start >= 0 && start < 1<<40 && iv >= 1 && iv <= 1<<20)
	return NewTimeIndex(time.Unix(start, 0), time.Duration(iv)*time.Second)
}

//verif:contract timeIndex.Index2Time
//verif:prop P16
func ctIndex2Time(start, iv int64, index uint64) {
	ti := zzRound(start, iv)
	zv.Requires(zv.U(index).Mul(zv.I(iv)).Le(zv.N(1 << 32)))
	s, e := ti.Index2Time(index)
	zv.Ensures("starts", zv.I(s.Unix()).Eq(zv.I(start).Add(zv.I(iv).Mul(zv.U(index)))))
	zv.Ensures("ends-where-the-next-starts", zv.I(e.Unix()).Eq(zv.I(start).Add(zv.I(iv).Mul(zv.U(index).Add(zv.N(1))))))
}

//verif:contract timeIndex.Time2Index
//verif:prop P16
func ctTime2Index(start, iv, at int64) {
	ti := zzRound(start, iv)
	zv.Requires(at >= 0 && at < 1<<32)
	i := ti.Time2Index(time.Unix(start+at, 0))
	zv.Ensures("the-round-around-it", zv.U(i).Eq(zv.I(at).Div(zv.I(iv))))
}

//verif:contract GroupInfo.GenPlanByAddress
//verif:prop P16
//verif:bounded 3
//verif:cases c 0 15
func ctPlan(c int, start uint32, iv uint8, index uint64, x, y types.Address) {
	zv.Requires(iv >= 1)
	n := 1 + c&1
	per, rep := int64(1+c>>1&1), uint16(1+c>>2&1)
	nodes := uint8(n + c>>3&1)
	zzPlan(n, int64(start), int64(iv), index, []types.Address{x, y}[:n], nodes, per, rep)
}

//verif:contract GroupInfo.GenPlanByAddress
//verif:prop P16
func ctPlanTooMany(start uint32, iv uint8, index uint64, x, y, z types.Address, per int64, rep uint16) {
	g := GroupInfo{TimeIndex: &zzTI{int64(start)}, ConsensusGroupInfo: types.ConsensusGroupInfo{NodeCount: 2, Interval: int64(iv), PerCount: per, Repeat: rep}}
	zv.Ensures("too-many-members", g.GenPlanByAddress(index, []types.Address{x, y, z}) == nil)
}

// zzTI starts the round at a given time; see ctIndex2Time.
type zzTI struct{ first int64 }

func (z *zzTI) Index2Time(index uint64) (time.Time, time.Time) {
	return time.Unix(z.first, 0), time.Unix(z.first, 0)
}
func (z *zzTI) Time2Index(t time.Time) uint64 { return 0 }

func zzPlan(n int, first, iv int64, index uint64, members []types.Address, nodes uint8, per int64, rep uint16) {
	g := GroupInfo{TimeIndex: &zzTI{first}, ConsensusGroupInfo: types.ConsensusGroupInfo{NodeCount: nodes, Interval: iv, PerCount: per, Repeat: rep}}
	plans := g.GenPlanByAddress(index, members)
	zv.Ensures("every-slot", len(plans) == n*int(per)*int(rep))
	span := iv * per * int64(nodes)
	for k := 0; k < 12 && k < len(plans); k++ {
		inRep, r := k%(n*int(per)), k/(n*int(per))
		zv.Ensures("its-member", plans[k].Member == members[inRep/int(per)])
		zv.Ensures("its-slot", plans[k].STime.Unix() == first+int64(r)*span+int64(inRep)*iv && plans[k].ETime.Unix() == plans[k].STime.Unix()+iv)
		zv.Ensures("within-the-round", zv.I(plans[k].ETime.Unix()).Le(zv.I(first).Add(zv.U(planInterval(&g)))))
	}
}

//verif:contract planInterval
//verif:prop P16
func ctInterval(info GroupInfo) {
	zv.Requires(info.Interval >= 0 && info.Interval < 1<<16 && info.PerCount >= 0 && info.PerCount < 1<<16)
	zv.Ensures("slots-times-length", zv.U(planInterval(&info)).Eq(zv.I(info.Interval).Mul(zv.N(int(info.NodeCount))).Mul(zv.I(info.PerCount)).Mul(zv.N(int(info.Repeat)))))
}

func votes3(a, b, c *Vote) bool {
	return a != nil && b != nil && c != nil && a.Balance != nil && b.Balance != nil && c.Balance != nil
}

//verif:contract ByBalance.Less
//verif:prop P16
func ctLess(a, b, c *Vote) {
	zv.Requires(votes3(a, b, c))
	l := ByBalance{a, b, c}
	zv.Ensures("more-votes-first", !zv.B(a.Balance).Gt(zv.B(b.Balance)) || l.Less(0, 1) && !l.Less(1, 0))
	zv.Ensures("then-by-name", !zv.B(a.Balance).Eq(zv.B(b.Balance)) || l.Less(0, 1) == (a.Name < b.Name))
	zv.Ensures("one-order-only", !(l.Less(0, 1) && l.Less(1, 0)) && !l.Less(0, 0))
}

//verif:contract BySuccessRate.Less
//verif:prop P16
func ctLessRate(a, b, c *Vote, ra, rb int32) {
	zv.Requires(votes3(a, b, c) && ra >= -1 && ra <= 1000000 && rb >= -1 && rb <= 1000000)
	l := BySuccessRate{{a, ra}, {b, rb}}
	zv.Ensures("better-rate-first", ra <= rb || l.Less(0, 1) && !l.Less(1, 0))
	zv.Ensures("then-more-votes", ra != rb || !zv.B(a.Balance).Gt(zv.B(b.Balance)) || l.Less(0, 1) && !l.Less(1, 0))
	zv.Ensures("then-by-name", ra != rb || !zv.B(a.Balance).Eq(zv.B(b.Balance)) || l.Less(0, 1) == (a.Name < b.Name))
}

//verif:contract (*algo).calRandCnt
//verif:prop P16
func ctRandCnt(al algo, total, n int) {
	zv.Requires(total >= 0 && n >= 0 && total < 1<<30 && n < 1<<30)
	c := al.calRandCnt(total, n)
	zv.Ensures("at-most-a-third", c >= 0 && c <= n && c*3 <= total)
	zv.Ensures("as-many-as-allowed", c == n || c == total/3)
}

//verif:contract (*algo).findSeed
//verif:prop P16
func ctSeed(al algo, a, b, c *Vote, h, seed uint64, gid types.Gid) {
	zv.Requires(votes3(a, b, c))
	al.info = NewGroupInfo(time.Unix(0, 0), types.ConsensusGroupInfo{Gid: gid})
	sum := zv.B(a.Balance).Add(zv.B(b.Balance)).Add(zv.B(c.Balance))
	want := zv.If(seed == 0, sum, zv.U(seed)).Add(zv.U(h)).Add(zv.Bytes(gid.Bytes()).BE())
	zv.Requires(want.Ge(zv.N(0)) && sum.Ge(zv.N(0)))
	got := al.findSeed([]*Vote{a, b, c}, h, &SeedInfo{seeds: seed})
	zv.Ensures("published-seed-or-votes", uint64(got) == want.Low())
}

// zzSort orders as sort.Sort does; the orders here have no ties, so there is one result.
func zzSort(x sort.Interface) {
	n := x.Len()
	for i := 1; i < n; i++ {
		for j := i; j > 0 && x.Less(j, j-1); j-- {
			x.Swap(j, j-1)
		}
	}
}

// zzPerm is an arbitrary reordering; which one follows from the seed.
var zzPerms [2][5]int
var zzPermN int
var zzSeeds [2]int64
var zzSeedN int

func zzSource(seed int64) rand.Source {
	zzSeeds[zzSeedN] = seed
	zzSeedN++
	return nil
}
func zzPerm(r *rand.Rand, n int) []int {
	p := zzPerms[zzPermN]
	zzPermN++
	return p[:n]
}

func perms(p, q [5]int, n, m int) {
	for i := 0; i < 5; i++ {
		for k := 0; k < 5; k++ {
			zv.Requires(i >= k || i >= n || k >= n || p[i] != p[k])
			zv.Requires(i >= k || i >= m || k >= m || q[i] != q[k])
		}
		zv.Requires(i >= n || p[i] >= 0 && p[i] < n)
		zv.Requires(i >= m || q[i] >= 0 && q[i] < m)
	}
	zzPerms, zzPermN, zzSeeds, zzSeedN = [2][5]int{p, q}, 0, [2]int64{}, 0
}

//verif:contract (*algo).ShuffleVotes
//verif:prop P16
//verif:bounded 3
//verif:replace math/rand:(*Rand).Perm zzPerm
//verif:replace math/rand:NewSource zzSource
func ctShuffle(al algo, a, b, c *Vote, p, q [5]int, h *ledger.HashHeight, seed uint64, gid types.Gid) {
	zv.Requires(votes3(a, b, c) && h != nil)
	al.info = NewGroupInfo(time.Unix(0, 0), types.ConsensusGroupInfo{Gid: gid})
	perms(p, q, 3, 0)
	in := []*Vote{a, b, c}
	out := al.ShuffleVotes(in, h, &SeedInfo{seeds: seed})
	zv.Ensures("as-drawn", len(out) == 3 && out[0] == in[p[0]] && out[1] == in[p[1]] && out[2] == in[p[2]])
	zv.Ensures("drawn-from-the-seed", zzPermN == 1 && zzSeeds[0] == al.findSeed(in, h.Height, &SeedInfo{seeds: seed}))
}

//verif:contract mergeGroup
//verif:prop P16
func ctMerge(a, b []*Vote, i, j int) {
	zv.Requires(len(a) < 1<<20 && len(b) < 1<<20)
	zv.Requires(0 <= i && i < len(a) && 0 <= j && j < len(b))
	m := mergeGroup(a, b)
	zv.Ensures("both", len(m) == len(a)+len(b) && m[i] == a[i] && m[len(a)+j] == b[j])
}

//verif:inv mergeGroup 0
func invMerge0(votes, groupA, groupB []*Vote, lenA, rangeindex int) {
	zv.Invariant("index", -1 <= rangeindex && rangeindex < len(groupA) && len(votes) == len(groupA)+len(groupB) && lenA == len(groupA))
	zv.Invariant("copied", zv.Forall(0, rangeindex+1, func(i int) bool { return votes[i] == groupA[i] }))
}

//verif:inv mergeGroup 1
func invMerge1(votes, groupA, groupB []*Vote, lenA, rangeindex int) {
	zv.Invariant("index", -1 <= rangeindex && rangeindex < len(groupB) && len(votes) == len(groupA)+len(groupB) && lenA == len(groupA))
	zv.Invariant("copied-a", zv.Forall(0, lenA, func(i int) bool { return votes[i] == groupA[i] }))
	zv.Invariant("copied-b", zv.Forall(0, rangeindex+1, func(i int) bool { return votes[i+lenA] == groupB[i] }))
}

func zzGroup(nodes, randCount, randRank uint8) algo {
	return algo{info: &GroupInfo{seed: big.NewInt(1), ConsensusGroupInfo: types.ConsensusGroupInfo{NodeCount: nodes, RandCount: randCount, RandRank: randRank}}}
}

func before(a, b *Vote) bool { return ByBalance{a, b}.Less(0, 1) }

func among(v *Vote, l []*Vote) bool {
	for i := 0; i < 5 && i < len(l); i++ {
		if l[i] == v {
			return true
		}
	}
	return false
}

//verif:contract (*algo).FilterSimple
//verif:prop P16
//verif:bounded 4
//verif:replace sort:Sort zzSort
//verif:cases c 0 5
func ctTop(c int, w, x, y, z *Vote) {
	zv.Requires(votes3(w, x, y) && z != nil && z.Balance != nil && w != x && w != y && w != z && x != y && x != z && y != z)
	n := 1 + c%3
	rank := uint8(2 + c/3)
	al := zzGroup(1, 1, rank)
	in := []*Vote{w, x, y}[:n]
	zv.Requires(!(zv.B(w.Balance).Eq(zv.B(x.Balance)) && w.Name == x.Name) && !(zv.B(w.Balance).Eq(zv.B(y.Balance)) && w.Name == y.Name) && !(zv.B(x.Balance).Eq(zv.B(y.Balance)) && x.Name == y.Name))
	orig := [3]*Vote{w, x, y}
	a, b := al.FilterSimple(in)
	zv.Ensures("the-top", len(a) == 1)
	for i := 0; i < 3 && i < n; i++ {
		zv.Ensures("most-votes-first", orig[i] == a[0] || before(a[0], orig[i]))
	}
	if n == 1 {
		zv.Ensures("nobody-else", len(b) == 0 && a[0] == w)
	} else {
		m := n - 1
		if m > int(rank)-1 {
			m = int(rank) - 1
		}
		zv.Ensures("the-runners-up", len(b) == m)
		for i := 0; i < 3 && i < n; i++ {
			zv.Ensures("next-best", orig[i] == a[0] || orig[i] == b[0] || before(b[0], orig[i]))
		}
		zv.Ensures("candidates-all", among(a[0], orig[:]) && among(b[0], orig[:]) && a[0] != b[0])
	}
}

// zzSorted takes its input as sorted already: sorting it again changes nothing.
func zzSorted(x sort.Interface) {
	n := x.Len()
	for i := 0; i+1 < n && i < 4; i++ {
		zv.Requires(x.Less(i, i+1))
	}
}

//verif:contract (*algo).filterRandV2
//verif:prop P16
//verif:bounded 5
//verif:replace sort:Sort zzSorted
//verif:replace math/rand:(*Rand).Perm zzPerm
//verif:replace math/rand:NewSource zzSource
//verif:cases nb 0 2
func ctDraw(nb int, a1, a2, a3, b1, b2 *Vote, p, q [5]int, h *ledger.HashHeight, seed uint64) {
	zv.Requires(votes3(a1, a2, a3) && votes3(b1, b2, b1) && h != nil)
	al := zzGroup(3, 1, 5)
	a, b := []*Vote{a1, a2, a3}, []*Vote{b1, b2}[:nb]
	n, m := 3+nb, 0
	if nb == 2 {
		n, m = 3, 2
	}
	perms(p, q, n, m)
	s := al.findSeed(mergeGroup(a, b), h.Height, &SeedInfo{seeds: seed})
	r := al.filterRandV2(a, b, h, &SeedInfo{seeds: seed}, nil)
	zv.Ensures("as-many-as-nodes", len(r) == 3)
	all := []*Vote{a1, a2, a3, b1, b2}
	if nb == 0 {
		zv.Ensures("nobody-to-draw", r[0] == a1 && r[1] == a2 && r[2] == a3)
	} else if nb == 1 {
		for i := 0; i < 3; i++ {
			zv.Ensures("drawn", r[i] == all[p[i]])
		}
		zv.Ensures("drawn-from-the-seed", zzPermN == 1 && zzSeeds[0] == s)
	} else {
		zv.Ensures("two-thirds-of-the-top", r[0] == a[p[0]] && r[1] == a[p[1]])
		zv.Ensures("one-runner-up", r[2] == b[q[0]])
		zv.Ensures("drawn-from-the-seed", zzPermN == 2 && zzSeeds[0] == s && zzSeeds[1] == s+1)
	}
}

//verif:contract (*algo).filterBySuccessRate
//verif:prop P16
//verif:bounded 4
//verif:replace sort:Sort zzSort
//verif:cases na 2 3
func ctSuccess(na int, a1, a2, a3, b1 *Vote, h *ledger.HashHeight, ra1, ra2, ra3, rb1 int32) {
	zv.Requires(votes3(a1, a2, a3) && b1 != nil && b1.Balance != nil && a1 != a2 && a1 != a3 && a2 != a3 && b1 != a1 && b1 != a2 && b1 != a3)
	zv.Requires(a1.Addr != a2.Addr && a1.Addr != a3.Addr && a2.Addr != a3.Addr && b1.Addr != a1.Addr && b1.Addr != a2.Addr && b1.Addr != a3.Addr)
	zv.Requires(ra1 >= 0 && ra2 >= 0 && ra3 >= 0 && rb1 >= 0 && ra1 <= 1000000 && ra2 <= 1000000 && ra3 <= 1000000 && rb1 <= 1000000)
	a1.Type, a2.Type, a3.Type, b1.Type = nil, nil, nil, nil
	al := zzGroup(uint8(na), 1, 5)
	rates := map[types.Address]int32{a1.Addr: ra1, a2.Addr: ra2, a3.Addr: ra3, b1.Addr: rb1}
	A, B := al.filterBySuccessRate([]*Vote{a1, a2, a3}[:na], []*Vote{b1}, h, rates)
	zv.Ensures("sizes-kept", len(A) == na && len(B) == 1)
	out := B[0]
	in := []*Vote{a1, a2, a3}
	for i := 0; i < 3 && i < na; i++ {
		zv.Ensures("nobody-lost", among(in[i], A) != (in[i] == out))
	}
	zv.Ensures("nobody-lost-b", among(b1, A) != (b1 == out))
	rate := zvRate(out, a1, ra1, zvRate(out, a2, ra2, zvRate(out, a3, ra3, rb1)))
	low := ra1 < Line || ra2 < Line || na == 3 && ra3 < Line
	zv.Ensures("swapped-only-for-a-bad-against-a-good-rate", out == b1 || rate < Line && rb1 > Line)
	zv.Ensures("swapped-when-due", !(rb1 > Line && low) || out != b1)
	worst := ra1
	if ra2 < worst {
		worst = ra2
	}
	if na == 3 && ra3 < worst {
		worst = ra3
	}
	zv.Ensures("the-worst-goes", out == b1 || rate == worst)
}

func zvRate(out, a *Vote, r, other int32) int32 {
	if out == a {
		return r
	}
	return other
}

// stand-ins for the steps of the election, each with a contract of its own above
var zzStep struct {
	in, a, b, a2, b2, out []*Vote
	rates                 map[types.Address]int32
	seed                  *SeedInfo
	h                     *ledger.HashHeight
	n                     int
	sorted                int
}

func zzSimple(al *algo, votes []*Vote) ([]*Vote, []*Vote) {
	zzStep.in = votes
	return zzStep.a, zzStep.b
}
func zzBySuccess(al *algo, a, b []*Vote, h *ledger.HashHeight, rates map[types.Address]int32) ([]*Vote, []*Vote) {
	zv.Assert("top-and-runners-up", zzSame(a, zzStep.a) && zzSame(b, zzStep.b))
	zzStep.rates = rates
	zzStep.n++
	return zzStep.a2, zzStep.b2
}
func zzRand(al *algo, a, b []*Vote, h *ledger.HashHeight, seed *SeedInfo, rates map[types.Address]int32) []*Vote {
	zv.Assert("after-the-exchange", zzStep.n == 1 && zzSame(a, zzStep.a2) && zzSame(b, zzStep.b2))
	zzStep.n++
	zzStep.seed, zzStep.h = seed, h
	return zzStep.out
}
func zzSame(a, b []*Vote) bool { return len(a) == len(b) && len(a) == 1 && a[0] == b[0] }
func zzSortCount(x sort.Interface) { zzStep.sorted++ }

//verif:contract (*algo).FilterVotes
//verif:prop P16
//verif:replace (*algo).FilterSimple zzSimple
//verif:replace (*algo).filterBySuccessRate zzBySuccess
//verif:replace (*algo).filterRandV2 zzRand
//verif:replace sort:Sort zzSortCount
//verif:cases nb 0 1
func ctFilter(nb int, v, a, b, a2, b2, o *Vote, seed uint64, h *ledger.HashHeight, who types.Address, rate int32) {
	zv.Requires(votes3(v, a, b) && votes3(a2, b2, o) && h != nil && a != a2 && b != b2 && o != a)
	zzStep.a, zzStep.b, zzStep.a2, zzStep.b2, zzStep.out = []*Vote{a}, []*Vote{b}[:nb], []*Vote{a2}, []*Vote{b2}, []*Vote{o}
	zzStep.n, zzStep.sorted = 0, 0
	ctx := NewVoteAlgoContext([]*Vote{v}, h, map[types.Address]int32{who: rate}, NewSeedInfo(seed))
	al := zzGroup(1, 1, 5)
	r := al.FilterVotes(ctx)
	zv.Ensures("all-candidates-considered", zzSame(zzStep.in, []*Vote{v}))
	zv.Ensures("in-order", zzStep.sorted == 1)
	if nb == 0 {
		zv.Ensures("no-runner-up", zzSame(r, zzStep.a) && zzStep.n == 0)
	} else {
		zv.Ensures("drawn", zzSame(r, zzStep.out) && zzStep.n == 2 && zzStep.seed.seeds == seed && zzStep.h == h && zzStep.rates[who] == rate)
	}
}

// zzState is the ledger state behind an election: two voters with balances.
type zzState struct {
	regs  []*types.Registration
	votes []*types.VoteInfo
	hash  types.Hash
	gid   types.Gid
	token types.TokenTypeId
	bal   map[types.Address]*big.Int
}

func (s *zzState) GetRegisterList(h types.Hash, gid types.Gid) ([]*types.Registration, error) {
	zv.Assert("same-state", h == s.hash && gid == s.gid)
	return s.regs, nil
}
func (s *zzState) GetVoteList(h types.Hash, gid types.Gid) ([]*types.VoteInfo, error) {
	zv.Assert("same-state", h == s.hash && gid == s.gid)
	return s.votes, nil
}
func (s *zzState) GetConfirmedBalanceList(l []types.Address, token types.TokenTypeId, h types.Hash) (map[types.Address]*big.Int, error) {
	zv.Assert("same-state", h == s.hash && token == s.token)
	m := map[types.Address]*big.Int{}
	for i := 0; i < 2 && i < len(l); i++ {
		m[l[i]] = s.bal[l[i]]
	}
	return m, nil
}
func (s *zzState) GetSnapshotHeaderBeforeTime(*time.Time) (*ledger.SnapshotBlock, error) {
	return nil, nil
}
func (s *zzState) GetSnapshotBlockByHeight(uint64) (*ledger.SnapshotBlock, error) { return nil, nil }

//verif:contract CalVotes
//verif:prop P16
//verif:bounded 2
//verif:cases c 0 8
func ctVotes(c int, info types.ConsensusGroupInfo, h types.Hash, r1, r2 types.Registration, v1, v2 types.VoteInfo, b1, b2 *big.Int) {
	zv.Requires(b1 != nil && b2 != nil && v1.VoteAddr != v2.VoteAddr)
	names := []string{"alice", "bob", "carol"}
	r1.Name, r2.Name, v1.SbpName, v2.SbpName = names[0], names[1], names[c%3], names[c/3]
	s := &zzState{regs: []*types.Registration{&r1, &r2}, votes: []*types.VoteInfo{&v1, &v2}, hash: h, gid: info.Gid, token: info.CountingTokenId,
		bal: map[types.Address]*big.Int{v1.VoteAddr: b1, v2.VoteAddr: b2}}
	votes, err := CalVotes(info, h, s)
	zv.Ensures("every-registration", err == nil && len(votes) == 2)
	for i := 0; i < 2; i++ {
		r := s.regs[i]
		want := zv.If(v1.SbpName == r.Name, zv.B(b1), zv.N(0)).Add(zv.If(v2.SbpName == r.Name, zv.B(b2), zv.N(0)))
		zv.Ensures("who", votes[i].Name == r.Name && votes[i].Addr == r.BlockProducingAddress)
		zv.Ensures("sum-of-their-voters", zv.B(votes[i].Balance).Eq(want))
	}
}

//verif:contract ConvertVoteToAddress
//verif:prop P16
func ctAddresses(a, b, c *Vote) {
	zv.Requires(votes3(a, b, c))
	r := ConvertVoteToAddress([]*Vote{a, b, c})
	zv.Ensures("same-order", len(r) == 3 && r[0] == a.Addr && r[1] == b.Addr && r[2] == c.Addr)
}
