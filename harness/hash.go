package main

import (
	"encoding/hex"
	"encoding/json"
	"errors"

	"github.com/steve-care-software/steve/domain/hash"
)

func init() {
	register("hash", opHash)
}

type hashStep struct {
	Kind string   `json:"k"`    // bytes, multi or text
	Rows []string `json:"rows"` // in hex
	Text string   `json:"t"`
}

// opHash hashes with one adapter, and compares every hash with the others
func opHash(raw json.RawMessage) (interface{}, error) {
	steps := []hashStep{}
	if err := json.Unmarshal(raw, &steps); err != nil {
		return nil, err
	}

	adapter := hash.NewAdapter()
	out := []object{}
	made := map[int]hash.Hash{}
	for i, step := range steps {
		rows, err := decodeAll(step.Rows)
		if err != nil {
			return nil, err
		}

		before := copyAll(rows)
		var hsh *hash.Hash
		switch step.Kind {
		case "bytes":
			hsh, err = adapter.FromBytes(rows[0])
		case "multi":
			hsh, err = adapter.FromMultiBytes(rows)
		case "text":
			hsh, err = adapter.FromString(step.Text)
		default:
			return nil, errors.New("unknown kind: " + step.Kind)
		}

		if err != nil {
			out = append(out, object{"v": "error", "both": hsh != nil})
			continue
		}

		made[i] = *hsh
		same := []int{}
		for j := range steps[:i+1] {
			if other, ok := made[j]; ok && hsh.Compare(other) {
				same = append(same, j+1)
			}
		}

		again, err := adapter.FromString(hsh.String())
		if err != nil {
			return nil, err
		}

		copied, err := adapter.FromBytes(hsh.Bytes())
		if err != nil {
			return nil, err
		}

		kept := sameAll(rows, before)
		for _, one := range rows {
			for k := range one {
				one[k] ^= 0xff
			}
		}

		out = append(out, object{"v": "ok", "h": hsh.String(), "b": hex.EncodeToString(hsh.Bytes()), "same": same, "kept": kept && made[i] == *hsh,
			"text": again.String(), "copy": copied.String()})
	}

	return out, nil
}
