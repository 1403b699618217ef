package chain_utils

//verif:file P13

import (
	"github.com/vitelabs/go-vite/v2/common/types"
	chain_file_manager "github.com/vitelabs/go-vite/v2/ledger/chain/file_manager"
	zv "github.com/vitelabs/go-vite/v2/zzverif"
)

// cat is the specification of a key: the prefix byte and the parts, one after the other.
type keySpec struct {
	b []byte
	n int
	ok bool
}

func spec(key []byte, prefix byte) *keySpec {
	return &keySpec{key, 1, len(key) >= 1 && key[0] == prefix}
}
func (k *keySpec) part(p []byte) *keySpec {
	end := k.n + len(p)
	k.ok = k.ok && end <= len(k.b) && zv.Bytes(k.b[k.n:end]).Eq(zv.Bytes(p))
	k.n = end
	return k
}
func (k *keySpec) u64(v uint64) *keySpec {
	end := k.n + 8
	k.ok = k.ok && end <= len(k.b) && zv.Bytes(k.b[k.n:end]).BE().Eq(zv.U(v))
	k.n = end
	return k
}
func (k *keySpec) done() bool { return k.ok && k.n == len(k.b) }

//verif:contract CreateAccountBlockHashKey
//verif:prop P13
func ctIndexKeys(addr, from types.Address, hash types.Hash, height uint64) {
	k1 := CreateAccountBlockHashKey(&hash)
	zv.Ensures("block-by-hash", spec(k1.Bytes(), 1).part(hash[:]).done())
	k2 := CreateAccountBlockHeightKey(&addr, height)
	zv.Ensures("block-by-height", spec(k2.Bytes(), 2).part(addr[:]).u64(height).done())
	k3 := CreateReceiveKey(&hash)
	zv.Ensures("receive", spec(k3.Bytes(), 3).part(hash[:]).done())
	k4 := CreateConfirmHeightKey(&addr, height)
	zv.Ensures("confirmation", spec(k4.Bytes(), 4).part(addr[:]).u64(height).done())
	k5 := CreateOnRoadKey(addr, hash)
	zv.Ensures("onroad", spec(k5.Bytes(), 5).part(addr[:]).part(hash[:]).done())
	k7 := CreateSnapshotBlockHashKey(&hash)
	zv.Ensures("snapshot-by-hash", spec(k7.Bytes(), 7).part(hash[:]).done())
	k8 := CreateSnapshotBlockHeightKey(height)
	zv.Ensures("snapshot-by-height", spec(k8.Bytes(), 8).u64(height).done())
	k9 := CreateAccountAddressKey(&addr)
	zv.Ensures("account", spec(k9.Bytes(), 9).part(addr[:]).done())
	k10 := CreateAccountIdKey(height)
	zv.Ensures("account-id", spec(k10.Bytes(), 10).u64(height).done())
	r := CreateRedoSnapshot(height)
	zv.Ensures("redo", spec(r.Bytes(), 1).u64(height).done())
	o := CreateOnRoadAddressHeightKey(addr, from, height, hash)
	zv.Ensures("onroad-by-sender", spec(o.Bytes(), 1).part(addr[:]).part(from[:]).u64(height).part(hash[:]).done())
}

//verif:contract CreateBalanceKey
//verif:prop P13
func ctStateKeys(addr types.Address, tti types.TokenTypeId, gid types.Gid, hash types.Hash, height uint64) {
	b := CreateBalanceKey(addr, tti)
	zv.Ensures("balance", spec(b.Bytes(), 3).part(addr[:]).part(tti[:]).done())
	bp := CreateBalanceKeyPrefix(addr)
	zv.Ensures("balance-prefix", spec(bp, 3).part(addr[:]).done())
	h := CreateHistoryBalanceKey(addr, tti, height)
	zv.Ensures("balance-history", spec(h.Bytes(), 4).part(addr[:]).part(tti[:]).u64(height).done())
	zv.Ensures("balance-history-read-back", h.EqualAddressAndTokenId(addr, tti) && h.ExtraTokenId() == tti && h.ExtraHeight() == height)
	p := BalanceHistoryKey{}.Construct(h.Bytes())
	zv.Ensures("balance-history-parsed", p != nil && *p == h)
	c := CreateCodeKey(addr)
	zv.Ensures("code", spec(c.Bytes(), 5).part(addr[:]).done())
	m := CreateContractMetaKey(addr)
	zv.Ensures("contract-meta", spec(m.Bytes(), 7).part(addr[:]).done())
	g := CreateGidContractKey(gid, &addr)
	zv.Ensures("gid-contract", spec(g.Bytes(), 9).part(gid[:]).part(addr[:]).done())
	gp := CreateGidContractPrefixKey(&gid)
	zv.Ensures("gid-prefix", spec(gp, 9).part(gid[:]).done())
	l := CreateVmLogListKey(&hash)
	zv.Ensures("log-list", spec(l.Bytes(), 10).part(hash[:]).done())
	d := CreateCallDepthKey(hash)
	zv.Ensures("call-depth", spec(d.Bytes(), 11).part(hash[:]).done())
}

//verif:contract BalanceHistoryKey.EqualAddressAndTokenId
//verif:prop P13
func ctBalanceHistoryOwner(a, a2 types.Address, t, t2 types.TokenTypeId, height uint64) {
	h := CreateHistoryBalanceKey(a, t, height)
	zv.Ensures("owner", h.EqualAddressAndTokenId(a2, t2) == (a == a2 && t == t2))
}

// padded: sk, zero padded to 32 bytes, then its length.
func padded(b []byte, sk []byte) bool {
	n := len(sk)
	return len(b) == 33 && b[32] == byte(n) && zv.Bytes(b[:n]).Eq(zv.Bytes(sk)) && zv.Forall(n, 32, func(i int) bool { return b[i] == 0 })
}

//verif:contract CreateStorageValueKey
//verif:prop P13
func ctStorageKey(addr types.Address, sk []byte, height uint64) {
	zv.Requires(len(sk) <= 32)
	zv.ModifiesNothing()
	k := CreateStorageValueKey(&addr, sk)
	zv.Ensures("storage-owner", spec(k.Bytes()[:22], 1).part(addr[:]).done())
	zv.Ensures("storage-key", padded(k.Bytes()[22:], sk))
	h := CreateHistoryStorageValueKey(&addr, sk, height)
	zv.Ensures("history-owner", spec(h.Bytes()[:22], 2).part(addr[:]).done())
	zv.Ensures("history-key", padded(h.Bytes()[22:55], sk))
	zv.Ensures("history-height", len(h) == 63 && zv.Bytes(h.Bytes()[55:]).BE().Eq(zv.U(height)))
	zv.Ensures("history-read-back", h.ExtraAddress() == addr && h.ExtraHeight() == height && padded(h.ExtraKeyAndLen(), sk))
	real := StorageRealKey{}.ConstructFix(h.ExtraKeyAndLen())
	zv.Ensures("history-key-read-back", zv.Bytes(real.Extra()).Eq(zv.Bytes(sk)))
	p := StorageHistoryKey{}.Construct(h.Bytes())
	zv.Ensures("history-parsed", p != nil && *p == h)
}

//verif:contract CreateStorageValueKeyPrefix
//verif:prop P13
func ctStoragePrefix(addr types.Address, prefix []byte) {
	zv.ModifiesNothing()
	k := CreateStorageValueKeyPrefix(&addr, prefix)
	zv.Ensures("storage-prefix", spec(k, 1).part(addr[:]).part(prefix).done())
	h := CreateHistoryStorageValueKeyPrefix(&addr, prefix)
	zv.Ensures("history-prefix", spec(h, 2).part(addr[:]).part(prefix).done())
}

// Two storage cells have one key only if they are the same cell.
//
//verif:lemma
//verif:prop P13
func lemmaStorageKeysDistinct(a, a2 types.Address, s, s2 []byte) {
	zv.Requires(len(s) <= 32 && len(s2) <= 32)
	k, k2 := CreateStorageValueKey(&a, s), CreateStorageValueKey(&a2, s2)
	zv.Ensures("same-address", k != k2 || a == a2)
	zv.Ensures("same-length", k != k2 || len(s) == len(s2))
	zv.Ensures("same-key", k != k2 || zv.Bytes(s).Eq(zv.Bytes(s2)))
}

//verif:contract Uint64ToBytes
//verif:prop P13
func ctUint64(v uint64, b []byte) {
	r := Uint64ToBytes(v)
	zv.Ensures("big-endian", len(r) == 8 && zv.Bytes(r).BE().Eq(zv.U(v)))
	zv.Ensures("read-back", BytesToUint64(r) == v)
	zv.Requires(len(b) >= 8)
	zv.Modifies(b)
	Uint64Put(b, v)
	zv.Ensures("put", BytesToUint64(b) == v)
}

//verif:contract SerializeLocation
//verif:prop P13
func ctLocation(id uint64, off int64) {
	zv.Requires(off >= 0 && off < 1<<32)
	l := chain_file_manager.NewLocation(id, off)
	b := SerializeLocation(l)
	zv.Ensures("size", len(b) == chain_file_manager.LocationSize)
	r := DeserializeLocation(b)
	zv.Ensures("read-back", r.FileId == id && r.Offset == off)
}
