package core

//verif:file P11

import (
	"encoding/binary"
	"github.com/golang/protobuf/proto"
	"github.com/vitelabs/go-vite/v2/common"
	"math/big"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/common/vitepb"
	"github.com/vitelabs/go-vite/v2/crypto"
	zv "github.com/vitelabs/go-vite/v2/zzverif"
)

func be8(v uint64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, v)
	return b
}

func word(x *big.Int) []byte {
	if x != nil {
		return common.LeftPadBytes(x.Bytes(), 32)
	}
	return make([]byte, 32)
}

// sameBig: two amounts read the same (a missing amount reads as zero).
func sameBig(a, b *big.Int) bool {
	x, y := zv.N(0), zv.N(0)
	if a != nil {
		x = zv.B(a)
	}
	if b != nil {
		y = zv.B(b)
	}
	return x.Eq(y)
}

func sameBytes(a, b []byte) bool { return zv.Bytes(a).Eq(zv.Bytes(b)) }

func preimage(ab *AccountBlock, extra []byte) []byte {
	var s []byte
	s = append(s, ab.BlockType)
	s = append(s, ab.PrevHash[:]...)
	s = append(s, be8(ab.Height)...)
	s = append(s, ab.AccountAddress[:]...)
	t := ab.BlockType
	if t == 1 || t == 2 || t == 3 || t == 6 {
		s = append(s, ab.ToAddress[:]...)
		s = append(s, word(ab.Amount)...)
		s = append(s, ab.TokenId[:]...)
	} else {
		s = append(s, ab.FromBlockHash[:]...)
	}
	if len(ab.Data) > 0 {
		s = append(s, crypto.Hash256(ab.Data)...)
	}
	s = append(s, word(ab.Fee)...)
	if ab.LogHash != nil {
		s = append(s, ab.LogHash[:]...)
	}
	s = append(s, common.LeftPadBytes(ab.Nonce, 8)...)
	for i := 0; i < len(ab.SendBlockList); i++ {
		s = append(s, ab.SendBlockList[i].Hash[:]...)
	}
	s = append(s, extra...)
	return s
}

//verif:contract (*AccountBlock).ComputeHash
//verif:prop P11
//verif:cases n 0 35
func ctComputeHash(n int, ab *AccountBlock, logHash types.Hash, data []byte, amount, fee [32]byte) {
	zv.Requires(ab != nil)
	ab.BlockType = byte(n / 4)
	ab.Amount, ab.Fee = new(big.Int).SetBytes(amount[:]), new(big.Int).SetBytes(fee[:])
	zv.Requires(len(ab.Nonce) <= 8)
	ab.LogHash = nil
	if n%2 == 1 {
		ab.LogHash = &logHash
	}
	ab.Data = nil
	if n/2%2 == 1 {
		zv.Requires(len(data) > 0)
		ab.Data = data
	}
	zv.Requires(len(ab.SendBlockList) == 0)
	zv.ModifiesNothing()
	got := ab.ComputeHash()
	want, err := types.BytesToHash(crypto.Hash256(preimage(ab, nil)))
	zv.Ensures("digest-of-content", err == nil && got == want)
}

// shaped sets the block's type, amounts and optional parts by case.
func shaped(n int, ab *AccountBlock, logHash *types.Hash, data []byte, amount, fee *[32]byte) {
	ab.BlockType = byte(n / 4)
	ab.Amount, ab.Fee = new(big.Int).SetBytes(amount[:]), new(big.Int).SetBytes(fee[:])
	ab.LogHash = nil
	if n%2 == 1 {
		ab.LogHash = logHash
	}
	ab.Data = nil
	if n/2%2 == 1 {
		zv.Requires(len(data) > 0)
		ab.Data = data
	}
}

//verif:contract (*AccountBlock).ComputeHash
//verif:prop P11
//verif:bounded 2
//verif:cases n 0 3
func ctComputeHashList(n int, ab *AccountBlock, s1, s2 *AccountBlock, logHash types.Hash, data []byte, amount, fee [32]byte) {
	zv.Requires(ab != nil && s1 != nil && s2 != nil)
	shaped(16+n, ab, &logHash, data, &amount, &fee)
	zv.Requires(len(ab.Nonce) == 0)
	ab.SendBlockList = []*AccountBlock{s1, s2}
	if n >= 2 {
		ab.SendBlockList = []*AccountBlock{s1}
	}
	got := ab.ComputeHash()
	want, err := types.BytesToHash(crypto.Hash256(preimage(ab, nil)))
	zv.Ensures("digest-covers-sends", err == nil && got == want)
}

//verif:contract (*AccountBlock).ComputeSendHash
//verif:prop P11
//verif:cases n 0 7
func ctComputeSendHash(n int, ab, host *AccountBlock, index uint8, logHash types.Hash, data []byte, amount, fee [32]byte) {
	zv.Requires(ab != nil && host != nil)
	// a contract's calls and its refunds, with and without data
	k := 8
	if n >= 4 {
		k = 24
	}
	shaped(k+n%4, ab, &logHash, data, &amount, &fee)
	zv.Requires(len(ab.Nonce) == 0)
	ab.SendBlockList = nil
	zv.ModifiesNothing()
	got := ab.ComputeSendHash(host, index)
	var pos []byte
	pos = append(pos, host.PrevHash[:]...)
	pos = append(pos, be8(host.Height)...)
	pos = append(pos, index)
	want, err := types.BytesToHash(crypto.Hash256(preimage(ab, pos)))
	zv.Ensures("digest-of-content-and-position", err == nil && got == want)
}

//verif:contract IsSendBlock
//verif:prop P11
func ctBlockKinds(ab *AccountBlock) {
	zv.Requires(ab != nil)
	zv.ModifiesNothing()
	t := ab.BlockType
	s := IsSendBlock(t)
	r := IsReceiveBlock(t)
	zv.Ensures("send", s == (t == 1 || t == 2 || t == 3 || t == 6))
	zv.Ensures("receive", r == (t == 4 || t == 5 || t == 7))
	zv.Ensures("one-kind", !(s && r))
	zv.Ensures("methods", ab.IsSendBlock() == s && ab.IsReceiveBlock() == r && ab.IsGenesisBlock() == (t == 7 && ab.Height == 1))
}

//verif:contract (*AccountBlock).DeProto
//verif:prop P11
//verif:cases n 0 35
func ctRoundTrip(n int, ab *AccountBlock, logHash types.Hash, data []byte, amount, fee, difficulty [32]byte) {
	zv.Requires(ab != nil)
	shaped(n, ab, &logHash, data, &amount, &fee)
	ab.Difficulty = nil
	if n%4 >= 1 {
		ab.Difficulty = new(big.Int).SetBytes(difficulty[:])
	}
	ab.SendBlockList = nil
	zv.ModifiesNothing()
	buf, err := ab.Serialize()
	zv.Ensures("serializes", err == nil)
	var out AccountBlock
	err = out.Deserialize(buf)
	zv.Ensures("deserializes", err == nil)
	zv.Ensures("kind-height-hash", out.BlockType == ab.BlockType && out.Height == ab.Height && out.Hash == ab.Hash)
	zv.Ensures("prev", ab.Height <= 1 || out.PrevHash == ab.PrevHash)
	zv.Ensures("address", out.AccountAddress == ab.AccountAddress && sameBytes(out.PublicKey, ab.PublicKey))
	t := ab.BlockType
	if t == 1 || t == 2 || t == 3 || t == 6 {
		zv.Ensures("to", out.ToAddress == ab.ToAddress)
		zv.Ensures("amount", out.TokenId == ab.TokenId && sameBig(out.Amount, ab.Amount))
	} else {
		zv.Ensures("from", out.FromBlockHash == ab.FromBlockHash)
	}
	zv.Ensures("data", sameBytes(out.Data, ab.Data))
	zv.Ensures("quota", out.Quota == ab.Quota && out.QuotaUsed == ab.QuotaUsed)
	zv.Ensures("fee", sameBig(out.Fee, ab.Fee))
	zv.Ensures("loghash", (out.LogHash == nil) == (ab.LogHash == nil) && (ab.LogHash == nil || *out.LogHash == *ab.LogHash))
	zv.Ensures("difficulty", sameBig(out.Difficulty, ab.Difficulty))
	zv.Ensures("nonce", sameBytes(out.Nonce, ab.Nonce))
	zv.Ensures("sends", len(out.SendBlockList) == 0)
	zv.Ensures("signature", sameBytes(out.Signature, ab.Signature))
}

//verif:contract (*AccountBlock).Copy
//verif:prop P11
//verif:cases n 0 3
func ctCopy(n int, ab *AccountBlock, logHash types.Hash, data []byte, amount, fee, difficulty [32]byte) {
	zv.Requires(ab != nil)
	shaped(n, ab, &logHash, data, &amount, &fee)
	ab.Difficulty = new(big.Int).SetBytes(difficulty[:])
	ab.SendBlockList = nil
	zv.ModifiesNothing()
	out := ab.Copy()
	zv.Ensures("new", out != nil && out != ab)
	zv.Ensures("fixed-parts", out.BlockType == ab.BlockType && out.Hash == ab.Hash && out.PrevHash == ab.PrevHash && out.Height == ab.Height &&
		out.AccountAddress == ab.AccountAddress && out.ToAddress == ab.ToAddress && out.FromBlockHash == ab.FromBlockHash &&
		out.TokenId == ab.TokenId && out.Quota == ab.Quota && out.QuotaUsed == ab.QuotaUsed)
	zv.Ensures("amounts", sameBig(out.Amount, ab.Amount) && sameBig(out.Fee, ab.Fee) && sameBig(out.Difficulty, ab.Difficulty))
	zv.Ensures("bytes", sameBytes(out.Data, ab.Data) && sameBytes(out.Nonce, ab.Nonce) && sameBytes(out.Signature, ab.Signature) && sameBytes(out.PublicKey, ab.PublicKey))
	zv.Ensures("loghash", (out.LogHash == nil) == (ab.LogHash == nil) && (ab.LogHash == nil || *out.LogHash == *ab.LogHash))
	zv.Ensures("independent", out.Amount != ab.Amount && out.Fee != ab.Fee && out.Difficulty != ab.Difficulty && (ab.LogHash == nil || out.LogHash != ab.LogHash))
	if len(ab.Data) > 0 {
		out.Data[0]++
	}
	if len(ab.Nonce) > 0 {
		out.Nonce[0]++
	}
	if len(ab.Signature) > 0 {
		out.Signature[0]++
	}
}

//verif:contract (*AccountBlock).Copy
//verif:prop P11
func ctCopyList(a, s AccountBlock, amount, fee [32]byte) {
	ab, s1 := &a, &s
	shaped(16, ab, nil, nil, &amount, &fee)
	shaped(8, s1, nil, nil, &amount, &fee)
	ab.Difficulty, s1.Difficulty = nil, nil
	s1.SendBlockList = nil
	ab.SendBlockList = []*AccountBlock{s1}
	out := ab.Copy()
	k := len(out.SendBlockList)
	zv.Ensures("sends-copied", k > 0 && out.SendBlockList[k-1] != s1 && out.SendBlockList[k-1].Hash == s1.Hash)
	zv.Ensures("same-number-of-sends", k == 1)
}

//verif:contract bytesToScItem
//verif:prop P11
func ctScItem(addr types.Address, hh HashHeight) {
	zv.ModifiesNothing()
	b := scItemToBytes(&addr, &hh)
	zv.Ensures("length", len(b) == ScItemBytesLen)
	a, h, err := bytesToScItem(b)
	zv.Ensures("reads-back", err == nil && *a == addr && h.Hash == hh.Hash && h.Height == hh.Height)
}

//verif:contract SnapshotContent.deProto
//verif:prop P11
//verif:bounded 2
//verif:cases n 0 2
func ctContent(n int, a1, a2 types.Address, h1, h2 HashHeight) {
	sc := make(SnapshotContent)
	a1[0], a2[0] = 0, 1
	if n >= 1 {
		sc[a1] = &h1
	}
	if n >= 2 {
		sc[a2] = &h2
	}
	b := sc.proto()
	zv.Ensures("length", len(b) == n*ScItemBytesLen)
	out := make(SnapshotContent)
	err := out.deProto(b)
	zv.Ensures("reads-back", err == nil && len(out) == n)
	if n >= 1 {
		zv.Ensures("first", out[a1] != nil && out[a1].Hash == h1.Hash && out[a1].Height == h1.Height)
	}
	if n >= 2 {
		zv.Ensures("second", out[a2] != nil && out[a2].Hash == h2.Hash && out[a2].Height == h2.Height)
	}
}

//verif:contract SnapshotContent.deProto
//verif:prop P11
func ctContentLength(b []byte) {
	zv.Requires(len(b) < ScItemBytesLen)
	out := make(SnapshotContent)
	err := out.deProto(b)
	zv.Ensures("whole-items-only", (err == nil) == (len(b) == 0) && len(out) == 0)
}

//verif:contract ComputeSeedHash
//verif:prop P11
func ctSeedHash(seed uint64, prev types.Hash, sec int64) {
	zv.Requires(sec >= 0 && sec < 1<<40)
	ts := time.Unix(sec, 0)
	var s []byte
	s = append(s, be8(seed)...)
	s = append(s, prev[:]...)
	s = append(s, be8(uint64(sec))...)
	want, err := types.BytesToHash(crypto.Hash256(s))
	got := ComputeSeedHash(seed, prev, &ts)
	zv.Ensures("commitment", err == nil && got == want)
}

func snapPreimage(sb *SnapshotBlock, sec int64) []byte {
	var s []byte
	s = append(s, sb.PrevHash[:]...)
	s = append(s, be8(sb.Height)...)
	s = append(s, be8(uint64(sec))...)
	s = append(s, be8(sb.Seed)...)
	if sb.SeedHash != nil {
		s = append(s, sb.SeedHash[:]...)
	} else {
		s = append(s, make([]byte, 32)...)
	}
	return s
}

//verif:contract (*SnapshotBlock).DeProto
//verif:prop P11
//verif:cases n 0 1
func ctSnapshotRoundTrip(n int, sb *SnapshotBlock, seedHash types.Hash, nano int64, addr types.Address, hh HashHeight) {
	zv.Requires(sb != nil && nano >= 0 && nano < 1<<62)
	ts := time.Unix(0, nano)
	sb.Timestamp = &ts
	sb.SeedHash = nil
	sb.SnapshotContent = nil
	if n == 1 {
		sb.SeedHash = &seedHash
		sb.SnapshotContent = SnapshotContent{addr: &hh}
	}
	buf, err := sb.Serialize()
	zv.Ensures("serializes", err == nil)
	var out SnapshotBlock
	err = out.Deserialize(buf)
	zv.Ensures("deserializes", err == nil)
	zv.Ensures("header", out.Hash == sb.Hash && out.PrevHash == sb.PrevHash && out.Height == sb.Height && out.Seed == sb.Seed && out.Version == sb.Version)
	zv.Ensures("keys", sameBytes(out.PublicKey, sb.PublicKey) && sameBytes(out.Signature, sb.Signature))
	zv.Ensures("time", out.Timestamp.UnixNano() == nano)
	zv.Ensures("seedhash", (out.SeedHash == nil) == (n == 0) && (n == 0 || *out.SeedHash == seedHash))
	zv.Ensures("content", len(out.SnapshotContent) == n)
	if n == 1 {
		zv.Ensures("item", out.SnapshotContent[addr] != nil && *out.SnapshotContent[addr] == hh)
	}
}

//verif:contract (*ContractMeta).Deserialize
//verif:prop P11
func ctContractMeta(cm *ContractMeta) {
	zv.Requires(cm != nil)
	zv.ModifiesNothing()
	b, err := cm.Serialize()
	zv.Ensures("serializes", err == nil)
	var out ContractMeta
	err = out.Deserialize(b)
	zv.Ensures("reads-back", err == nil && out == *cm)
}

//verif:contract (*HashHeight).Deserialize
//verif:prop P11
func ctHashHeight(h *HashHeight) {
	zv.Requires(h != nil)
	zv.ModifiesNothing()
	b, err := h.Serialize()
	zv.Ensures("serializes", err == nil)
	var out HashHeight
	err = out.Deserialize(b)
	zv.Ensures("reads-back", err == nil && out == *h && out.Equal(h.Hash, h.Height))
}

//verif:contract VmLogList.Hash
//verif:prop P11
//verif:bounded 2
//verif:cases n 0 3
func ctLogHash(n int, h *[14]uint64, at uint64, l1, l2 *VmLog, t1, t2 types.Hash, addr types.Address, prev types.Hash, d1, d2 [3]byte) {
	upgrade.ZZForks(h)
	var list VmLogList
	var s []byte
	if n >= 1 {
		zv.Requires(l1 != nil)
		l1.Topics = []types.Hash{t1}
		if n >= 2 {
			l1.Data = d1[:]
		}
		list = append(list, l1)
		s = append(s, t1[:]...)
		s = append(s, l1.Data...)
	}
	if n >= 2 {
		zv.Requires(l2 != nil && l2 != l1)
		l2.Data = d2[:2]
		l2.Topics = nil
		if n == 3 {
			l2.Topics = []types.Hash{t1, t2}
			s = append(s, t1[:]...)
			s = append(s, t2[:]...)
		}
		list = append(list, l2)
		s = append(s, l2.Data...)
	}
	got := list.Hash(at, addr, prev)
	zv.Ensures("empty", (got == nil) == (n == 0))
	if n > 0 {
		if upgrade.IsSeedUpgrade(at) {
			s = append(s, addr[:]...)
			s = append(s, prev[:]...)
		}
		want, err := types.BytesToHash(crypto.Hash256(s))
		zv.Ensures("digest-of-logs", err == nil && *got == want)
	}
}

//verif:contract (*AccountBlock).Deserialize
//verif:prop P11
func ctDeserializeRejects(pb *vitepb.AccountBlock) {
	zv.Requires(pb != nil && len(pb.SendBlockList) == 0)
	pb.SendBlockList = nil
	zv.Requires(pb.Height > 0)
	buf, err := proto.Marshal(pb)
	zv.Requires(err == nil)
	send := IsSendBlock(byte(pb.BlockType))
	ok := len(pb.AccountAddress) == types.AddressSize && (len(pb.LogHash) == 0 || len(pb.LogHash) == types.HashSize) &&
		(!send || len(pb.ToAddress) == types.AddressSize) && (send || len(pb.FromBlockHash) == types.HashSize) &&
		(!(send || byte(pb.BlockType) == BlockTypeGenesisReceive) || len(pb.TokenId) == types.TokenTypeIdSize)
	var out AccountBlock
	err = out.Deserialize(buf)
	zv.Ensures("malformed-rejected", (err == nil) == ok)
}
