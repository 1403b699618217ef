SEEDS=[
dict(id='P01-multiplier-wrap',property='P01',pkg='vm/util',
 edits=[('vm/util/quota.go','	if cost > helper.MaxUint64/ratioUint64 {\n		return 0, ErrGasUintOverflow\n	}\n	return cost * ratioUint64','	if cost/quotaMultiplierDivision > helper.MaxUint64/ratioUint64 {\n		return 0, ErrGasUintOverflow\n	}\n	return cost * ratioUint64')],
 needs='a cost between MaxUint64/multiplier and ten times that, with a multiplier above 10',
 breaks='the multiplied quota charge wraps around 2^64 and the block is charged almost nothing',
 demo='''package util
import ("testing";"math/big")
func TestZZDemo(t *testing.T){
 for _,c:=range []uint64{21000,1<<60,1<<61,1<<62,1<<63}{ for _,m:=range []uint8{10,11,20,100}{
  got,err:=MultipleCost(c,m)
  if err!=nil {continue}
  w:=new(big.Int).Mul(new(big.Int).SetUint64(c),big.NewInt(int64(m))); w.Quo(w,big.NewInt(10))
  if w.Cmp(new(big.Int).SetUint64(got))!=0 { t.Fatalf("ZZDEMO cost %d multiplier %d charged %d want %s",c,m,got,w)}
 }}
}
'''),
dict(id='P01-confirm-cost-wrap',property='P01',pkg='vm/util',
 edits=[('vm/util/quota.go','	gas = baseGas\n	gasData, err','	gas = baseGas + uint64(snapshotCount)*quotaTable.SnapshotQuota\n	gasData, err'),
 ('vm/util/quota.go','''	gas = gas + gasData
	if snapshotCount == 0 {
		return gas, nil
	}
	confirmGas := uint64(snapshotCount) * quotaTable.SnapshotQuota
	if helper.MaxUint64-gas < confirmGas {
		return 0, ErrGasUintOverflow
	}
	return gas + confirmGas, nil
''','''	return gas + gasData, nil
''')],
 needs='a base cost within the confirmation cost of 2^64 and a non-zero confirmation count',
 breaks='the base cost plus the confirmation cost wraps around 2^64 and the block is charged almost nothing instead of being rejected',
 demo='''package util
import ("testing";"math/big")
func TestZZDemo(t *testing.T){
 q:=&QuotaTable{TxDataQuota:68,SnapshotQuota:200}
 for _,b:=range []uint64{21000,1<<63,^uint64(0)-100,^uint64(0)-14000}{ for _,s:=range []uint8{0,1,75,255}{
  got,err:=BlockGasCost(make([]byte,5),b,s,q)
  w:=new(big.Int).SetUint64(b); w.Add(w,big.NewInt(5*68+200*int64(s)))
  if w.IsUint64() != (err==nil) || (err==nil && w.Uint64()!=got) { t.Fatalf("ZZDEMO base %d confirmations %d charged %d, %v",b,s,got,err)}
 }}
}
'''),
dict(id='P04-shl-low-word',property='P04',pkg='vm',
 edits=[('vm/instructions.go','	if shift.Cmp(helper.Big256) >= 0 {\n		value.SetUint64(0)\n	} else {\n		helper.U256(value.Lsh(value, uint(shift.Uint64())))','	if n := shift.Uint64(); n >= 256 {\n		value.SetUint64(0)\n	} else {\n		helper.U256(value.Lsh(value, uint(n)))')],
 needs='a left shift by 2^64 or more whose low 64 bits are below 256',
 breaks='SHL by 2^64+n shifts by n instead of giving zero',
 demo='''package vm
import ("testing";"math/big";"github.com/vitelabs/go-vite/v2/vm/util")
func TestZZDemo(t *testing.T){
 for _,k:=range []uint{0,3,255,256,64,65,200}{
 c:=&contract{intPool:util.PoolOfIntPools.Get()}
 st:=newStack()
 s:=big.NewInt(int64(k)); if k==64||k==65||k==200 { s=new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1),k),big.NewInt(1)) }
 st.push(big.NewInt(5)); st.push(s)
 w:=big.NewInt(0); if s.IsUint64()&&s.Uint64()<256 { w.Lsh(big.NewInt(5),uint(s.Uint64())); w.Mod(w,new(big.Int).Lsh(big.NewInt(1),256)) }
 sc:=new(big.Int).Set(s)
 pc:=uint64(0)
 opSHL(&pc,nil,c,nil,st)
 if st.peek().Cmp(w)!=0 {t.Fatalf("ZZDEMO 5<<%s = %s",sc,st.peek())}
 }
}
'''),
]
