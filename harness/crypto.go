package main

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"strconv"
	"strings"
	"sync"

	encryption "github.com/steve-care-software/steve/domain/cryptography"
	rsakeys "github.com/steve-care-software/steve/domain/cryptography/keys/encryption"
	"github.com/steve-care-software/steve/domain/cryptography/keys/signature"
	"github.com/steve-care-software/steve/domain/hash"
	kyber "go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/group/edwards25519"
)

func init() {
	register("sign", opSign)
	register("cipher", opCipher)
}

var group = edwards25519.NewBlakeSHA256Ed25519()

// partOf designates a part of the text of a former signature
type partOf struct {
	Slot int `json:"x"`
	Part int `json:"p"` // for a ring signature: the scalar of a member
}

type signStep struct {
	Op     string   `json:"op"`
	Slot   int      `json:"e"`
	Key    int      `json:"k"`
	On     int      `json:"x"`
	Msg    string   `json:"m"` // in hex
	Ring   []int    `json:"ring"`
	Hashes []int    `json:"hs"` // 0 is the hash of something else
	R      int      `json:"r"`  // for the texts that are assembled: 0 is a part of nothing known
	S      int      `json:"s"`
	Ss     []partOf `json:"ss"`
	E      int      `json:"ei"`
	Kind   string   `json:"kind"`
	Text   string   `json:"t"` // in hex
}

type ringParts struct {
	ring []string
	ss   []string
	e    string
}

type signProgram struct {
	keys   map[int]signature.PrivateKey
	pubs   map[int]signature.PublicKey
	sigs   map[int]signature.Signature
	rings  map[int]signature.RingSignature
	parts  map[int][]string
	rparts map[int]ringParts
}

func sigParts(text string) ([]string, error) {
	decoded, err := base64.StdEncoding.DecodeString(text)
	if err != nil {
		return nil, err
	}

	out := strings.Split(string(decoded), "#")
	if len(out) != 2 {
		return nil, errors.New("the text of a signature has not 2 sections")
	}

	return out, nil
}

func elements(text string) []string {
	out := []string{}
	for _, one := range strings.Split(text, "|") {
		if one != "" {
			out = append(out, one)
		}
	}

	return out
}

func ringSigParts(text string) (ringParts, error) {
	decoded, err := base64.StdEncoding.DecodeString(text)
	if err != nil {
		return ringParts{}, err
	}

	sections := strings.Split(string(decoded), "#")
	if len(sections) != 3 {
		return ringParts{}, errors.New("the text of a ring signature has not 3 sections")
	}

	return ringParts{elements(sections[0]), elements(sections[1]), sections[2]}, nil
}

func scalarOf(text string) (kyber.Scalar, error) {
	data, err := hex.DecodeString(text)
	if err != nil {
		return nil, err
	}

	out := group.Scalar()
	return out, out.UnmarshalBinary(data)
}

func pointOf(text string) (kyber.Point, error) {
	data, err := hex.DecodeString(text)
	if err != nil {
		return nil, err
	}

	out := group.Point()
	return out, out.UnmarshalBinary(data)
}

func digest(msg string) kyber.Scalar {
	sha := group.Hash()
	sha.Write([]byte(msg))
	return group.Scalar().SetBytes(sha.Sum(nil))
}

// commitments computes the points that a ring signature commits to
func (p ringParts) commitments(msg string) ([]string, error) {
	e, err := scalarOf(p.e)
	if err != nil {
		return nil, err
	}

	out := []string{}
	for i := range p.ring {
		s, err := scalarOf(p.ss[i])
		if err != nil {
			return nil, err
		}

		point, err := pointOf(p.ring[i])
		if err != nil {
			return nil, err
		}

		r := group.Point().Add(group.Point().Mul(s, nil), group.Point().Mul(e, point))
		out = append(out, r.String())
		e = digest(msg + r.String())
	}

	return out, nil
}

func unhex(text string) string {
	data, err := hex.DecodeString(text)
	if err != nil {
		panic("harness: " + err.Error())
	}

	return string(data)
}

func opSign(raw json.RawMessage) (interface{}, error) {
	steps := []signStep{}
	if err := json.Unmarshal(raw, &steps); err != nil {
		return nil, err
	}

	p := &signProgram{keys: map[int]signature.PrivateKey{}, pubs: map[int]signature.PublicKey{}, sigs: map[int]signature.Signature{},
		rings: map[int]signature.RingSignature{}, parts: map[int][]string{}, rparts: map[int]ringParts{}}
	out := []object{}
	for _, step := range steps {
		result, err := p.step(step)
		if err != nil {
			return nil, err
		}

		out = append(out, result)
	}

	return out, nil
}

func odd(err error) object {
	return object{"v": "odd", "msg": err.Error()}
}

func (p *signProgram) keepKey(slot int, pk signature.PrivateKey) object {
	p.keys[slot] = pk
	p.pubs[slot] = pk.PublicKey()
	return object{"v": "ok", "x": pk.String(), "p": pk.PublicKey().String()}
}

func (p *signProgram) keepSig(slot int, sig signature.Signature) object {
	parts, err := sigParts(sig.String())
	if err != nil {
		return odd(err)
	}

	p.sigs[slot] = sig
	p.parts[slot] = parts
	return object{"v": "ok", "r": parts[0], "s": parts[1], "ver": sig.Verify()}
}

func (p *signProgram) keepRing(slot int, sig signature.RingSignature) object {
	parts, err := ringSigParts(sig.String())
	if err != nil {
		return odd(err)
	}

	members := []string{}
	for _, one := range sig.Ring() {
		members = append(members, one.String())
	}

	if strings.Join(members, "|") != strings.Join(parts.ring, "|") {
		return odd(errors.New("the text of the ring signature doesn't contain its ring"))
	}

	p.rings[slot] = sig
	p.rparts[slot] = parts
	return object{"v": "ok", "ring": parts.ring, "ss": parts.ss, "e": parts.e}
}

func (p *signProgram) part(one partOf) string {
	if parts, ok := p.rparts[one.Slot]; ok {
		return parts.ss[one.Part-1]
	}

	if parts, ok := p.parts[one.Slot]; ok {
		return parts[1]
	}

	return group.Scalar().Pick(group.RandomStream()).String()
}

func (p *signProgram) ringOf(list []int) []signature.PublicKey {
	out := []signature.PublicKey{}
	for _, one := range list {
		out = append(out, p.pubs[one])
	}

	return out
}

// absent returns true if the step uses what was refused
func (p *signProgram) absent(step signStep) bool {
	ok := true
	switch step.Op {
	case "keytext":
		_, ok = p.keys[step.On]
	case "pubtext":
		_, ok = p.pubs[step.On]
	case "sigtext", "recover":
		_, ok = p.sigs[step.On]
	case "rtext", "rverify", "rcheck":
		_, ok = p.rings[step.On]
	case "sign", "rsign":
		_, ok = p.keys[step.Key]
	}

	for _, one := range step.Ring {
		if _, exists := p.pubs[one]; !exists {
			ok = false
		}
	}

	for _, one := range step.Ss {
		if parts, exists := p.rparts[one.Slot]; exists && one.Part > len(parts.ss) {
			ok = false
		}
	}

	return !ok
}

func (p *signProgram) step(step signStep) (object, error) {
	failure := object{"v": "error"}
	if p.absent(step) {
		return object{"v": "skipped"}, nil
	}

	switch step.Op {
	case "key":
		return p.keepKey(step.Slot, signature.NewPrivateKeyFactory().Create()), nil
	case "keytext":
		pk, err := signature.NewPrivateKeyAdapter().ToPrivateKey(p.keys[step.On].String())
		if err != nil {
			return failure, nil
		}

		return p.keepKey(step.Slot, pk), nil
	case "pubtext":
		pub, err := signature.NewPublicKeyAdapter().ToPublicKey(p.pubs[step.On].String())
		if err != nil {
			return failure, nil
		}

		equals := []int{}
		for slot, other := range p.pubs {
			if pub.Equals(other) {
				equals = append(equals, slot)
			}
		}

		p.pubs[step.Slot] = pub
		return object{"v": "ok", "p": pub.String(), "eq": equals}, nil
	case "sign":
		sig, err := p.keys[step.Key].Sign(unhex(step.Msg))
		if err != nil {
			return failure, nil
		}

		return p.keepSig(step.Slot, sig), nil
	case "sigtext":
		sig, err := signature.NewAdapter().ToSignature(p.sigs[step.On].String())
		if err != nil {
			return failure, nil
		}

		return p.keepSig(step.Slot, sig), nil
	case "assemble":
		r := group.Point().Pick(group.RandomStream()).String()
		if parts, ok := p.parts[step.R]; ok {
			r = parts[0]
		}

		s := p.part(partOf{Slot: step.S})
		sig, err := signature.NewAdapter().ToSignature(base64.StdEncoding.EncodeToString([]byte(r + "#" + s)))
		if err != nil {
			return failure, nil
		}

		return p.keepSig(step.Slot, sig), nil
	case "recover":
		return object{"v": "ok", "p": p.sigs[step.On].PublicKey(unhex(step.Msg)).String()}, nil
	case "rsign":
		ring := p.ringOf(step.Ring)
		sig, err := p.keys[step.Key].RingSign(unhex(step.Msg), ring)
		if err != nil {
			return failure, nil
		}

		out := p.keepRing(step.Slot, sig)
		if out["v"] == "ok" {
			parts := p.rparts[step.Slot]
			if len(parts.ss) != len(parts.ring) {
				return odd(errors.New("a ring signature has not a scalar for each member")), nil
			}

			rs, err := parts.commitments(unhex(step.Msg))
			if err != nil {
				return odd(err), nil
			}

			out["rs"] = rs
		}

		return out, nil
	case "rtext":
		sig, err := signature.NewRingSignatureAdapter().ToSignature(p.rings[step.On].String())
		if err != nil {
			return failure, nil
		}

		return p.keepRing(step.Slot, sig), nil
	case "rassemble":
		text := ""
		for _, one := range step.Ring {
			text += p.pubs[one].String() + "|"
		}

		text += "#"
		for _, one := range step.Ss {
			text += p.part(one) + "|"
		}

		e := group.Scalar().Pick(group.RandomStream()).String()
		if parts, ok := p.rparts[step.E]; ok {
			e = parts.e
		}

		sig, err := signature.NewRingSignatureAdapter().ToSignature(base64.StdEncoding.EncodeToString([]byte(text + "#" + e)))
		if err != nil {
			return failure, nil
		}

		return p.keepRing(step.Slot, sig), nil
	case "rverify":
		return object{"v": "ok", "is": p.rings[step.On].Verify(unhex(step.Msg))}, nil
	case "rcheck":
		adapter := hash.NewAdapter()
		list := []hash.Hash{}
		for i, one := range step.Hashes {
			hsh, err := adapter.FromBytes([]byte("other" + strconv.Itoa(i)))
			if pub, ok := p.pubs[one]; ok {
				hsh, err = adapter.FromString(pub.String())
			}

			if err != nil {
				return nil, err
			}

			list = append(list, *hsh)
		}

		is, err := signature.NewRingSignatureAdapter().ToVerification(p.rings[step.On], unhex(step.Msg), list)
		if is == (err != nil) {
			return odd(errors.New("a verification answers a verdict that contradicts its error")), nil
		}

		return object{"v": "ok", "is": is}, nil
	case "read":
		return p.read(step.Kind, unhex(step.Text)), nil
	}

	return nil, errors.New("unknown step: " + step.Op)
}

// read parses any text
func (p *signProgram) read(kind string, text string) object {
	again := ""
	var err error
	switch kind {
	case "key":
		var ins signature.PrivateKey
		ins, err = signature.NewPrivateKeyAdapter().ToPrivateKey(text)
		if err == nil {
			again = ins.String()
		}
	case "pub":
		var ins signature.PublicKey
		ins, err = signature.NewPublicKeyAdapter().ToPublicKey(text)
		if err == nil {
			again = ins.String()
		}
	case "sig":
		var ins signature.Signature
		ins, err = signature.NewAdapter().ToSignature(text)
		if err == nil {
			again = ins.String()
		}
	case "rsig":
		var ins signature.RingSignature
		ins, err = signature.NewRingSignatureAdapter().ToSignature(text)
		if err == nil {
			again = ins.String()
		}
	}

	if err != nil {
		return object{"v": "error"}
	}

	return object{"v": "ok", "same": again == text}
}

// ---------------------------------------------------------------------- encryption

type cipherStep struct {
	Op   string `json:"op"`
	Slot int    `json:"e"`
	On   int    `json:"x"`
	Key  int    `json:"k"`
	Pass string `json:"p"`
	Msg  string `json:"m"`
	Bits int    `json:"bits"`
	Form string `json:"form"`
	Edit string `json:"edit"`
	At   int    `json:"at"`
}

var rsaLock sync.Mutex
var rsaPool = map[string]rsakeys.PrivateKey{}

// the keys are expensive: they are shared between the programs of a process
func rsaKey(bits int, n int) (rsakeys.PrivateKey, error) {
	rsaLock.Lock()
	defer rsaLock.Unlock()
	name := strconv.Itoa(bits) + ":" + strconv.Itoa(n)
	if pk, ok := rsaPool[name]; ok {
		return pk, nil
	}

	pk, err := rsakeys.NewFactory(bits).Create()
	if err == nil {
		rsaPool[name] = pk
	}

	return pk, err
}

type cipherProgram struct {
	builder    encryption.Builder
	adapter    rsakeys.Adapter
	pubAdapter rsakeys.PublicKeyAdapter
	boxes      map[string]encryption.Encryption
	texts      map[int]string
	keys       map[int]rsakeys.PrivateKey
	pubs       map[int]rsakeys.PublicKey
	ciphers    map[int][]byte
}

func opCipher(raw json.RawMessage) (interface{}, error) {
	steps := []cipherStep{}
	if err := json.Unmarshal(raw, &steps); err != nil {
		return nil, err
	}

	p := &cipherProgram{boxes: map[string]encryption.Encryption{}, texts: map[int]string{}, keys: map[int]rsakeys.PrivateKey{}, pubs: map[int]rsakeys.PublicKey{}, ciphers: map[int][]byte{},
		adapter: rsakeys.NewAdapter(), pubAdapter: rsakeys.NewPublickeyAdapter()}
	out := []object{}
	for _, step := range steps {
		result, err := p.step(step)
		if err != nil {
			return nil, err
		}

		out = append(out, result)
	}

	return out, nil
}

func (p *cipherProgram) box(pass string, form string) (encryption.Encryption, error) {
	if form == "fresh" {
		return encryption.NewEncryption(unhex(pass)), nil
	}

	if form == "shared" {
		// the same builder makes every one of them
		if p.builder == nil {
			p.builder = encryption.NewBuilder()
		}

		return p.builder.WithPassword([]byte(unhex(pass))).Now()
	}

	if box, ok := p.boxes[pass]; ok {
		return box, nil
	}

	password := []byte(unhex(pass))
	box, err := encryption.NewBuilder().Create().WithPassword(password).Now()
	if err != nil {
		return nil, err
	}

	for i := range password {
		password[i] = 0
	}

	p.boxes[pass] = box
	return box, nil
}

func edited(data []byte, edit string, at int) []byte {
	data = append([]byte{}, data...)
	switch edit {
	case "cut":
		if at < len(data) {
			data = data[:at]
		}
	case "flip":
		data[at%len(data)] ^= 1 << uint(at%8)
	case "add":
		data = append(data, byte(at))
	}

	return data
}

func (p *cipherProgram) step(step cipherStep) (object, error) {
	failure := object{"v": "error"}
	switch step.Op {
	case "penc":
		box, err := p.box(step.Pass, step.Form)
		if err != nil {
			return odd(err), nil
		}

		msg := []byte(unhex(step.Msg))
		text, err := box.Encrypt(msg)
		if err != nil {
			return failure, nil
		}

		data, err := base64.StdEncoding.DecodeString(text)
		if err != nil || len(data) < 16 {
			return odd(errors.New("an unreadable encrypted text")), nil
		}

		p.texts[step.Slot] = text
		return object{"v": "ok", "iv": hex.EncodeToString(data[:16]), "len": len(data) - 16, "kept": hex.EncodeToString(msg) == step.Msg,
			"clear": len(msg) >= 8 && bytes.Contains(data, msg)}, nil
	case "pdec":
		box, err := p.box(step.Pass, step.Form)
		if err != nil {
			return odd(err), nil
		}

		out, err := box.Decrypt(p.texts[step.On])
		if err != nil {
			return failure, nil
		}

		return object{"v": "ok", "m": hex.EncodeToString(out)}, nil
	case "pnone":
		builder := encryption.NewBuilder()
		if step.Form == "created" {
			builder = encryption.NewBuilder().WithPassword([]byte("password")).Create()
		}

		if step.Form == "nil" {
			builder = builder.WithPassword(nil)
		}

		if _, err := builder.Now(); err != nil {
			return failure, nil
		}

		return object{"v": "ok"}, nil
	case "pread":
		box, err := p.box(step.Pass, "")
		if err != nil {
			return odd(err), nil
		}

		out, err := box.Decrypt(unhex(step.Msg))
		if err != nil {
			return failure, nil
		}

		return object{"v": "ok", "m": hex.EncodeToString(out)}, nil
	case "rkey":
		pk, err := rsaKey(step.Bits, step.Key)
		if err != nil {
			return odd(err), nil
		}

		p.keys[step.Slot] = pk
		p.pubs[step.Slot] = pk.Public()
		return object{"v": "ok"}, nil
	case "rcopy":
		var pk rsakeys.PrivateKey
		var err error
		adapter := p.adapter
		if step.Form == "bytes" {
			pk, err = adapter.FromBytes(adapter.ToBytes(p.keys[step.On]))
		} else {
			pk, err = adapter.FromEncoded(adapter.ToEncoded(p.keys[step.On]))
		}

		if err != nil {
			return failure, nil
		}

		p.keys[step.Slot] = pk
		p.pubs[step.Slot] = pk.Public()
		return object{"v": "ok", "same": adapter.ToEncoded(pk) == adapter.ToEncoded(p.keys[step.On])}, nil
	case "rpub":
		var pub rsakeys.PublicKey
		var err error
		adapter := p.pubAdapter
		if step.Form == "bytes" {
			pub, err = adapter.FromBytes(adapter.ToBytes(p.pubs[step.On]))
		} else {
			pub, err = adapter.FromEncoded(adapter.ToEncoded(p.pubs[step.On]))
		}

		if err != nil {
			return failure, nil
		}

		p.pubs[step.Slot] = pub
		return object{"v": "ok", "same": adapter.ToEncoded(pub) == adapter.ToEncoded(p.pubs[step.On])}, nil
	case "rhash":
		hsh, err := p.pubAdapter.ToHash(p.pubs[step.On])
		if err != nil {
			return odd(err), nil
		}

		return object{"v": "ok", "h": hsh.String()}, nil
	case "renc":
		msg := []byte(unhex(step.Msg))
		data, err := p.pubs[step.Key].Encrypt(msg)
		if err != nil {
			return failure, nil
		}

		p.ciphers[step.Slot] = data
		return object{"v": "ok", "len": len(data), "c": hex.EncodeToString(data), "kept": hex.EncodeToString(msg) == step.Msg, "clear": len(msg) >= 8 && bytes.Contains(data, msg)}, nil
	case "rdec":
		data := p.ciphers[step.On]
		if step.Edit != "" {
			data = edited(data, step.Edit, step.At)
		}

		out, err := p.keys[step.Key].Decrypt(data)
		if err != nil {
			return failure, nil
		}

		return object{"v": "ok", "m": hex.EncodeToString(out)}, nil
	case "rforeign":
		// what another scheme encrypted for the same key
		key := p.pubs[step.Key].Key()
		msg := []byte(unhex(step.Msg))
		var data []byte
		var err error
		switch step.Form {
		case "pkcs":
			data, err = rsa.EncryptPKCS1v15(rand.Reader, &key, msg)
		case "label":
			data, err = rsa.EncryptOAEP(sha256.New(), rand.Reader, &key, msg, []byte("label"))
		case "sha1":
			data, err = rsa.EncryptOAEP(sha1.New(), rand.Reader, &key, msg, []byte(""))
		case "clear":
			data = append(make([]byte, key.Size()-len(msg)), msg...)
		default:
			return nil, errors.New("unknown form: " + step.Form)
		}

		if err != nil {
			return nil, err
		}

		out, err := p.keys[step.On].Decrypt(data)
		if err != nil {
			return failure, nil
		}

		return object{"v": "ok", "m": hex.EncodeToString(out)}, nil
	case "rread":
		data := []byte(unhex(step.Msg))
		var err error
		switch step.Form {
		case "keybytes":
			_, err = p.adapter.FromBytes(data)
		case "keytext":
			_, err = p.adapter.FromEncoded(string(data))
		case "pubbytes":
			_, err = p.pubAdapter.FromBytes(data)
		case "pubtext":
			_, err = p.pubAdapter.FromEncoded(string(data))
		case "nokey":
			_, err = rsakeys.NewBuilder().Create().Now()
		case "nopub":
			_, err = rsakeys.NewPublicKeyBuilder().Create().Now()
		case "wrongbytes":
			// the bytes of a private key are not those of a public one
			_, err = p.pubAdapter.FromBytes(p.adapter.ToBytes(p.keys[step.On]))
		case "cutbytes":
			all := p.adapter.ToBytes(p.keys[step.On])
			_, err = p.adapter.FromBytes(all[:len(all)-1-step.At%(len(all)-1)])
		case "cutpub":
			all := p.pubAdapter.ToBytes(p.pubs[step.On])
			_, err = p.pubAdapter.FromBytes(all[:len(all)-1-step.At%(len(all)-1)])
		default:
			return nil, errors.New("unknown form: " + step.Form)
		}

		if err != nil {
			return failure, nil
		}

		return object{"v": "ok"}, nil
	}

	return nil, errors.New("unknown step: " + step.Op)
}
