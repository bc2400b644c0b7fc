package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"

	"github.com/steve-care-software/steve/domain/hashtree"
)

func init() {
	register("tree", opTree)
}

type treeInput struct {
	Blocks []string   `json:"blocks"` // in hex
	Nil    bool       `json:"nil"`
	Orders [][]string `json:"orders"`
	Parts  bool       `json:"parts"`
}

func decodeAll(list []string) ([][]byte, error) {
	// the spare capacity is filled, in order to see whether it gets written
	out := make([][]byte, 0, len(list)*2+8)
	for _, one := range list {
		data, err := hex.DecodeString(one)
		if err != nil {
			return nil, err
		}

		if len(data) <= 0 && len(out)%2 == 1 {
			// a block without bytes, in its other form
			data = nil
		}

		out = append(out, data)
	}

	spare := out[len(out):cap(out)]
	for i := range spare {
		spare[i] = []byte("spare")
	}

	return out, nil
}

func copyAll(list [][]byte) [][]byte {
	out := [][]byte{}
	for _, one := range list[:cap(list)] {
		out = append(out, append([]byte{}, one...))
	}

	return out
}

func sameAll(list [][]byte, before [][]byte) bool {
	list = list[:cap(list)]
	for i := range before {
		if !bytes.Equal(list[i], before[i]) {
			return false
		}
	}

	return len(list) == len(before)
}

func encodeAll(list [][]byte) []string {
	out := []string{}
	for _, one := range list {
		out = append(out, hex.EncodeToString(one))
	}

	return out
}

func leafHeads(leaves hashtree.Leaves) []string {
	out := []string{}
	for _, one := range leaves.Leaves() {
		out = append(out, one.Head().String())
	}

	return out
}

// treeLevels returns the heads from the root to the leaves, the heights of the levels, and the leaves below every node
func treeLevels(tree hashtree.HashTree) ([][]string, [][]int, [][][]string) {
	heights := [][]int{}
	below := [][][]string{}
	levels := [][]string{{tree.Head().String()}}
	current := []hashtree.Leaf{tree.Parent().Left(), tree.Parent().Right()}
	for len(current) > 0 && len(levels) < 64 {
		heads := []string{}
		high := []int{}
		under := [][]string{}
		next := []hashtree.Leaf{}
		for _, one := range current {
			heads = append(heads, one.Head().String())
			high = append(high, one.Height())
			under = append(under, leafHeads(one.Leaves()))
			if one.HasParent() {
				next = append(next, one.Parent().Left(), one.Parent().Right())
			}
		}

		heights = append(heights, high)
		below = append(below, under)
		levels = append(levels, heads)
		current = next
	}

	return levels, heights, below
}

// rebuilt returns the trees that the parts of the tree make
func rebuilt(tree hashtree.HashTree) []object {
	out := []object{}
	keep := func(kind string, again hashtree.HashTree, err error) {
		if err != nil {
			out = append(out, object{"kind": kind, "v": "error", "levels": []string{}})
			return
		}

		levels, _, _ := treeLevels(again)
		out = append(out, object{"kind": kind, "v": "ok", "levels": levels})
	}

	again, err := tree.Parent().HashTree()
	keep("same", again, err)
	again, err = tree.Parent().BlockLeaves().HashTree()
	keep("same", again, err)
	again, err = tree.Compact().Leaves().HashTree()
	keep("same", again, err)
	left, right := tree.Parent().Left(), tree.Parent().Right()
	again, err = right.Leaves().Merge(left.Leaves()).HashTree()
	keep("swapped", again, err)
	again, err = left.Leaves().Merge(left.Leaves()).HashTree()
	keep("twice", again, err)
	if right.HasParent() {
		again, err = right.Parent().HashTree()
		keep("half", again, err)
		again, err = right.Leaves().HashTree()
		keep("half", again, err)
	}

	return out
}

func treeObject(tree hashtree.HashTree) object {
	levels, heights, below := treeLevels(tree)
	compact := tree.Compact()
	return object{
		"length": tree.Length(), "height": tree.Height(), "head": tree.Head().String(), "levels": levels, "heights": heights, "below": below,
		"leaves": leafHeads(tree.Parent().BlockLeaves()), "chead": compact.Head().String(), "clength": compact.Length(), "cleaves": leafHeads(compact.Leaves()),
	}
}

func opTree(raw json.RawMessage) (interface{}, error) {
	in := treeInput{}
	if err := json.Unmarshal(raw, &in); err != nil {
		return nil, err
	}

	blocks, err := decodeAll(in.Blocks)
	if err != nil {
		return nil, err
	}

	if in.Nil {
		blocks = nil
	}

	before := copyAll(blocks)
	tree, err := hashtree.NewBuilder().Create().WithBlocks(blocks).Now()
	if err != nil {
		return object{"v": "error", "msg": err.Error()}, nil
	}

	first := treeObject(tree)
	var parts []object
	if in.Parts {
		parts = rebuilt(tree)
	}

	unchanged := sameAll(blocks, before)
	orders := []interface{}{}
	for _, one := range in.Orders {
		data, err := decodeAll(one)
		if err != nil {
			return nil, err
		}

		dataBefore := copyAll(data)
		ordered, err := tree.Order(data)
		unchanged = unchanged && sameAll(data, dataBefore)
		if err != nil {
			orders = append(orders, object{"v": "error"})
			continue
		}

		orders = append(orders, object{"v": "ok", "o": encodeAll(ordered)})
	}

	// another tree, on a copy with another capacity
	again, err := hashtree.NewBuilder().Create().WithBlocks(append([][]byte{}, before[:len(blocks)]...)).Now()
	if err != nil {
		return nil, err
	}

	second := treeObject(again)

	// the caller changes its blocks afterwards
	for i := range blocks {
		for j := range blocks[i] {
			blocks[i][j] ^= 0xff
		}

		blocks[i] = []byte("overwritten")
	}

	third := treeObject(tree)
	js, _ := json.Marshal(first)
	js2, _ := json.Marshal(second)
	js3, _ := json.Marshal(third)
	first["v"] = "ok"
	first["orders"] = orders
	first["parts"] = parts
	first["unchanged"] = unchanged
	first["again"] = bytes.Equal(js, js2)
	first["stable"] = bytes.Equal(js, js3)
	return first, nil
}
