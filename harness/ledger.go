package main

import (
	"encoding/json"
	"errors"
	"strconv"
	"strings"
	"time"

	uuid "github.com/satori/go.uuid"
	"github.com/steve-care-software/steve/domain/cryptography/keys/signature"
	"github.com/steve-care-software/steve/domain/hash"
)

func init() {
	register("ledger", opLedger)
}

var errBoth = errors.New("both an instance and an error")
var errNothing = errors.New("neither an instance nor an error")

const timeBase = 1700000000

type config struct {
	Min       int    `json:"min"`
	Max       int    `json:"max"`
	Delimiter string `json:"delim"`
}

type instant struct {
	S int64 `json:"s"`
	N int64 `json:"n"`
	Z int   `json:"z"` // the zone, in hours
}

type value struct {
	raw json.RawMessage
}

func (v value) read(into interface{}) {
	if err := json.Unmarshal(v.raw, into); err != nil {
		panic("harness: " + err.Error() + ": " + string(v.raw))
	}
}

func (v value) text() string {
	out := ""
	v.read(&out)
	return out
}

func (v value) uint() uint {
	out, err := strconv.ParseUint(v.text(), 10, 64)
	if err != nil {
		panic("harness: " + err.Error())
	}

	return uint(out)
}

func (v value) time() time.Time {
	out := instant{}
	v.read(&out)
	at := time.Unix(timeBase+out.S, out.N).UTC()
	if out.Z != 0 {
		at = at.In(time.FixedZone("zone", out.Z*3600))
	}

	return at
}

func (v value) uuid() uuid.UUID {
	return uuid.FromStringOrNil(v.text())
}

func (v value) ref() int {
	out := 0
	v.read(&out)
	return out
}

func (v value) refs() []int {
	out := []int{}
	v.read(&out)
	return out
}

type anyEntity struct {
	kind  string
	value interface{}
}

type program struct {
	builders []*anyBuilder
	entities map[int]anyEntity
	hashed   map[string]string
	keys     map[string]signature.PrivateKey
	names    map[string]string
	rings    map[string]signature.RingSignature
}

func (p *program) hashOf(name string) hash.Hash {
	// name~number is the hash of the name, with another byte there
	sections := strings.Split(name, "~")
	hsh, err := hash.NewAdapter().FromBytes([]byte(sections[0]))
	if err != nil {
		panic(err)
	}

	if len(sections) > 1 {
		at, err := strconv.Atoi(sections[1])
		if err != nil {
			panic("harness: " + err.Error())
		}

		hsh[at] ^= 1
	}

	p.hashed[hsh.String()] = name
	return *hsh
}

func (p *program) hash(v value) hash.Hash {
	return p.hashOf(v.text())
}

func (p *program) hashes(v value) []hash.Hash {
	names := []string{}
	v.read(&names)
	out := []hash.Hash{}
	for _, one := range names {
		out = append(out, p.hashOf(one))
	}

	return out
}

func (p *program) hashName(h hash.Hash) string {
	if name, ok := p.hashed[h.String()]; ok {
		return name
	}

	return "unknown:" + h.String()
}

func (p *program) keyOf(name string) signature.PrivateKey {
	if key, ok := p.keys[name]; ok {
		return key
	}

	key := signature.NewPrivateKeyFactory().Create()
	p.keys[name] = key
	p.names[key.String()] = name
	return key
}

func (p *program) key(v value) signature.PrivateKey {
	return p.keyOf(v.text())
}

func (p *program) keyName(pk signature.PrivateKey) string {
	if name, ok := p.names[pk.String()]; ok {
		return name
	}

	return "unknown:" + pk.String()
}

// the signature named N is the signature of the message N by the key named N
func (p *program) sig(v value) signature.Signature {
	name := v.text()
	sig, err := p.keyOf(name).Sign(name)
	if err != nil {
		panic(err)
	}

	p.names[sig.String()] = name
	return sig
}

func (p *program) sigName(sig signature.Signature) string {
	if name, ok := p.names[sig.String()]; ok {
		return name
	}

	return "unknown:" + sig.String()
}

func (p *program) ringsig(v value) signature.RingSignature {
	name := v.text()
	if sig, ok := p.rings[name]; ok {
		return sig
	}

	key := p.keyOf(name)
	sig, err := key.RingSign(name, []signature.PublicKey{key.PublicKey(), p.keyOf("other").PublicKey()})
	if err != nil {
		panic(err)
	}

	p.rings[name] = sig
	p.names[sig.String()] = name
	return sig
}

func (p *program) ringsigName(sig signature.RingSignature) string {
	if name, ok := p.names[sig.String()]; ok {
		return name
	}

	return "unknown:" + sig.String()
}

func uintText(v uint) string {
	return strconv.FormatUint(uint64(v), 10)
}

func timeObject(at time.Time) object {
	return object{"s": at.Unix() - timeBase, "n": at.Nanosecond()}
}

type ledgerStep struct {
	Op      string          `json:"op"`
	Kind    string          `json:"kind"`
	Config  config          `json:"cfg"`
	Builder int             `json:"b"`
	Entity  int             `json:"e"`
	Field   string          `json:"f"`
	Value   json.RawMessage `json:"v"`
}

func opLedger(raw json.RawMessage) (interface{}, error) {
	steps := []ledgerStep{}
	if err := json.Unmarshal(raw, &steps); err != nil {
		return nil, err
	}

	p := &program{entities: map[int]anyEntity{}, hashed: map[string]string{}, keys: map[string]signature.PrivateKey{}, names: map[string]string{}, rings: map[string]signature.RingSignature{}}
	out := []interface{}{}
	for _, step := range steps {
		result, err := p.step(step)
		if err != nil {
			return nil, err
		}

		out = append(out, result)
	}

	// every entity, at the end
	final := object{}
	for slot, one := range p.entities {
		final[strconv.Itoa(slot)] = p.dump(one.kind, one.value)
	}

	return object{"steps": out, "final": final}, nil
}

type absent struct {
	slot int
}

// at returns the entity of a slot: the steps that use the slot of a refused instance are skipped
func (p *program) at(slot int) interface{} {
	if one, ok := p.entities[slot]; ok {
		return one.value
	}

	panic(absent{slot})
}

func (p *program) step(step ledgerStep) (out interface{}, err error) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(absent); ok {
				out = object{"v": "absent"}
				return
			}

			panic(r)
		}
	}()

	switch step.Op {
	case "new":
		b := newAnyBuilder(step.Kind, step.Config)
		if b == nil {
			return nil, errors.New("unknown kind: " + step.Kind)
		}

		p.builders = append(p.builders, b)
		return object{"v": "done"}, nil
	case "create":
		p.builders = append(p.builders, p.builders[step.Builder].create())
		return object{"v": "done"}, nil
	case "set":
		if err := p.builders[step.Builder].set(p, step.Field, value{step.Value}); err != nil {
			return nil, err
		}

		return object{"v": "done"}, nil
	case "now":
		b := p.builders[step.Builder]
		ins, err := b.now()
		if err == errBoth || err == errNothing {
			return object{"v": "odd", "msg": err.Error()}, nil
		}

		if err != nil {
			return object{"v": "error"}, nil
		}

		p.entities[step.Entity] = anyEntity{b.kind, ins}
		return object{"v": "ok", "d": p.dump(b.kind, ins)}, nil
	case "get":
		p.at(step.Entity)
		one := p.entities[step.Entity]
		return object{"v": "ok", "d": p.dump(one.kind, one.value)}, nil
	}

	return nil, errors.New("unknown step: " + step.Op)
}
