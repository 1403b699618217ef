package util

import "math/big"

// Observers for contracts of package vm (specification only).

// ZZPoolOK: the pool is well formed.
func ZZPoolOK(p *IntPool) bool { return p != nil && p.pool != nil }

// ZZPoolLen is the number of pooled integers.
func ZZPoolLen(p *IntPool) int { return len(p.pool.data) }

// ZZPoolAt is the i-th pooled integer.
func ZZPoolAt(p *IntPool, i int) *big.Int { return p.pool.data[i] }

// ZZPoolData is the backing slice of the pool.
func ZZPoolData(p *IntPool) []*big.Int { return p.pool.data }
