package vc

import (
	"go/token"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
	ord    int
	pos    token.Pos
}

type loopInfo struct {
	rpo   []*ssa.BasicBlock
	loops []*loop
	inner map[*ssa.BasicBlock]*loop
}

func (e *Engine) loopsOf(fn *ssa.Function) *loopInfo {
	e.mu.Lock()
	defer e.mu.Unlock()
	if li, ok := e.loopMemo[fn]; ok {
		return li
	}
	li := &loopInfo{inner: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	byHeader := map[*ssa.BasicBlock]*loop{}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := byHeader[s]
				if lp == nil {
					lp = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					byHeader[s] = lp
					li.loops = append(li.loops, lp)
				}
				// natural loop body
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if lp.blocks[x] || !seen[x] {
						continue
					}
					lp.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	// nesting
	sort.SliceStable(li.loops, func(i, j int) bool { return len(li.loops[i].blocks) > len(li.loops[j].blocks) })
	for _, lp := range li.loops {
		for b := range lp.blocks {
			if cur := li.inner[b]; cur == nil || len(cur.blocks) > len(lp.blocks) {
				if b == lp.header && cur != nil {
					lp.parent = cur
				}
				li.inner[b] = lp
			}
		}
	}
	for _, lp := range li.loops {
		lp.parent = nil
		for _, o := range li.loops {
			if o != lp && o.blocks[lp.header] && len(o.blocks) > len(lp.blocks) {
				if lp.parent == nil || len(o.blocks) < len(lp.parent.blocks) {
					lp.parent = o
				}
			}
		}
		best := token.NoPos
		for _, in := range lp.header.Instrs {
			if p := in.Pos(); p.IsValid() {
				best = p
				break
			}
		}
		lp.pos = best
	}
	// ordinal by header block index (source order)
	ls := append([]*loop{}, li.loops...)
	sort.Slice(ls, func(i, j int) bool { return ls[i].header.Index < ls[j].header.Index })
	for i, lp := range ls {
		lp.ord = i
	}
	e.loopMemo[fn] = li
	return li
}

// UsesInvariants: some loop was verified through an annotated invariant.
func (r *Run) UsesInvariants() bool {
	if len(r.loopInv) > 0 {
		return true
	}
	for _, o := range r.Obls {
		if o.Kind == "invariant" {
			return true
		}
	}
	return false
}
