// Code generated by a table of the builders: see /verif/tools/gen_ledger.py
package main

import (
	"errors"

	"github.com/steve-care-software/steve/domain/chains"
	"github.com/steve-care-software/steve/domain/genesis"
	gprivates "github.com/steve-care-software/steve/domain/genesis/privates"
	"github.com/steve-care-software/steve/domain/identities"
	"github.com/steve-care-software/steve/domain/peers"
	"github.com/steve-care-software/steve/domain/receipts"
	"github.com/steve-care-software/steve/domain/rings"
	"github.com/steve-care-software/steve/domain/transactions"
	"github.com/steve-care-software/steve/domain/transactions/privates"
	"github.com/steve-care-software/steve/domain/transactions/secrets"
)

// anyBuilder is a builder of the ledger
type anyBuilder struct {
	kind   string
	create func() *anyBuilder
	set    func(p *program, field string, v value) error
	now    func() (interface{}, error)
}

var errField = errors.New("unknown field")

func newAnyBuilder(kind string, cfg config) *anyBuilder {
	switch kind {
	case "ring":
		return wrap_ring(rings.NewRingBuilder(uint(cfg.Min), uint(cfg.Max)))
	case "rings":
		return wrap_rings(rings.NewBuilder())
	case "unitcontent":
		return wrap_unitcontent(genesis.NewUnitContentBuilder())
	case "unit":
		return wrap_unit(genesis.NewUnitBuilder())
	case "units":
		return wrap_units(genesis.NewUnitsBuilder())
	case "genesis":
		return wrap_genesis(genesis.NewBuilder())
	case "gprivate":
		return wrap_gprivate(gprivates.NewPrivateBuilder())
	case "gprivates":
		return wrap_gprivates(gprivates.NewBuilder())
	case "origin":
		return wrap_origin(transactions.NewOriginBuilder())
	case "content":
		return wrap_content(transactions.NewContentBuilder())
	case "trx":
		return wrap_trx(transactions.NewTransactionBuilder())
	case "trxs":
		return wrap_trxs(transactions.NewBuilder())
	case "secret":
		return wrap_secret(secrets.NewSecretBuilder())
	case "secrets":
		return wrap_secrets(secrets.NewBuilder())
	case "receipt":
		return wrap_receipt(receipts.NewBuilder())
	case "private":
		return wrap_private(privates.NewPrivateBuilder())
	case "privates":
		return wrap_privates(privates.NewBuilder())
	case "block":
		return wrap_block(chains.NewBlockBuilder())
	case "chain":
		return wrap_chain(chains.NewBuilder())
	case "idtrx":
		return wrap_idtrx(identities.NewTransactionsBuilder())
	case "identity":
		return wrap_identity(identities.NewBuilder())
	case "peer":
		return wrap_peer(peers.NewPeerBuilder(cfg.Delimiter))
	case "peers":
		return wrap_peers(peers.NewBuilder())
	}

	return nil
}

func wrap_ring(b rings.RingBuilder) *anyBuilder {
	return &anyBuilder{
		kind:   "ring",
		create: func() *anyBuilder { return wrap_ring(b.Create()) },
		set: func(p *program, field string, v value) error {
			switch field {
			case "list":
				b = b.WithList(p.hashes(v))
			default:
				return errField
			}
			return nil
		},
		now: func() (interface{}, error) {
			ins, err := b.Now()
			if err != nil {
				if ins != nil {
					return nil, errBoth
				}
				return nil, err
			}
			if ins == nil {
				return nil, errNothing
			}
			return ins, nil
		},
	}
}

func wrap_rings(b rings.Builder) *anyBuilder {
	return &anyBuilder{
		kind:   "rings",
		create: func() *anyBuilder { return wrap_rings(b.Create()) },
		set: func(p *program, field string, v value) error {
			switch field {
			case "list":
				list := []rings.Ring{}
				for _, one := range v.refs() {
					list = append(list, p.at(one).(rings.Ring))
				}
				b = b.WithList(list)
			default:
				return errField
			}
			return nil
		},
		now: func() (interface{}, error) {
			ins, err := b.Now()
			if err != nil {
				if ins != nil {
					return nil, errBoth
				}
				return nil, err
			}
			if ins == nil {
				return nil, errNothing
			}
			return ins, nil
		},
	}
}

func wrap_unitcontent(b genesis.UnitContentBuilder) *anyBuilder {
	return &anyBuilder{
		kind:   "unitcontent",
		create: func() *anyBuilder { return wrap_unitcontent(b.Create()) },
		set: func(p *program, field string, v value) error {
			switch field {
			case "amount":
				b = b.WithAmount(v.uint())
			case "nonce":
				b = b.WithNonce(v.text())
			case "activatedOn":
				b = b.ActivatedOn(v.time())
			case "createdOn":
				b = b.CreatedOn(v.time())
			default:
				return errField
			}
			return nil
		},
		now: func() (interface{}, error) {
			ins, err := b.Now()
			if err != nil {
				if ins != nil {
					return nil, errBoth
				}
				return nil, err
			}
			if ins == nil {
				return nil, errNothing
			}
			return ins, nil
		},
	}
}

func wrap_unit(b genesis.UnitBuilder) *anyBuilder {
	return &anyBuilder{
		kind:   "unit",
		create: func() *anyBuilder { return wrap_unit(b.Create()) },
		set: func(p *program, field string, v value) error {
			switch field {
			case "content":
				b = b.WithContent(p.at(v.ref()).(genesis.UnitContent))
			case "owner":
				b = b.WithOwner(p.at(v.ref()).(rings.Ring))
			default:
				return errField
			}
			return nil
		},
		now: func() (interface{}, error) {
			ins, err := b.Now()
			if err != nil {
				if ins != nil {
					return nil, errBoth
				}
				return nil, err
			}
			if ins == nil {
				return nil, errNothing
			}
			return ins, nil
		},
	}
}

func wrap_units(b genesis.UnitsBuilder) *anyBuilder {
	return &anyBuilder{
		kind:   "units",
		create: func() *anyBuilder { return wrap_units(b.Create()) },
		set: func(p *program, field string, v value) error {
			switch field {
			case "list":
				list := []genesis.Unit{}
				for _, one := range v.refs() {
					list = append(list, p.at(one).(genesis.Unit))
				}
				b = b.WithList(list)
			default:
				return errField
			}
			return nil
		},
		now: func() (interface{}, error) {
			ins, err := b.Now()
			if err != nil {
				if ins != nil {
					return nil, errBoth
				}
				return nil, err
			}
			if ins == nil {
				return nil, errNothing
			}
			return ins, nil
		},
	}
}

func wrap_genesis(b genesis.Builder) *anyBuilder {
	return &anyBuilder{
		kind:   "genesis",
		create: func() *anyBuilder { return wrap_genesis(b.Create()) },
		set: func(p *program, field string, v value) error {
			switch field {
			case "units":
				b = b.WithUnits(p.at(v.ref()).(genesis.Units))
			case "fees":
				b = b.WithFees(v.uint())
			case "createdOn":
				b = b.CreatedOn(v.time())
			default:
				return errField
			}
			return nil
		},
		now: func() (interface{}, error) {
			ins, err := b.Now()
			if err != nil {
				if ins != nil {
					return nil, errBoth
				}
				return nil, err
			}
			if ins == nil {
				return nil, errNothing
			}
			return ins, nil
		},
	}
}

func wrap_gprivate(b gprivates.PrivateBuilder) *anyBuilder {
	return &anyBuilder{
		kind:   "gprivate",
		create: func() *anyBuilder { return wrap_gprivate(b.Create()) },
		set: func(p *program, field string, v value) error {
			switch field {
			case "unit":
				b = b.WithUnit(p.at(v.ref()).(genesis.Unit))
			case "pk":
				b = b.WithPrivateKey(p.key(v))
			default:
				return errField
			}
			return nil
		},
		now: func() (interface{}, error) {
			ins, err := b.Now()
			if err != nil {
				if ins != nil {
					return nil, errBoth
				}
				return nil, err
			}
			if ins == nil {
				return nil, errNothing
			}
			return ins, nil
		},
	}
}

func wrap_gprivates(b gprivates.Builder) *anyBuilder {
	return &anyBuilder{
		kind:   "gprivates",
		create: func() *anyBuilder { return wrap_gprivates(b.Create()) },
		set: func(p *program, field string, v value) error {
			switch field {
			case "list":
				list := []gprivates.Private{}
				for _, one := range v.refs() {
					list = append(list, p.at(one).(gprivates.Private))
				}
				b = b.WithList(list)
			default:
				return errField
			}
			return nil
		},
		now: func() (interface{}, error) {
			ins, err := b.Now()
			if err != nil {
				if ins != nil {
					return nil, errBoth
				}
				return nil, err
			}
			if ins == nil {
				return nil, errNothing
			}
			return ins, nil
		},
	}
}

func wrap_origin(b transactions.OriginBuilder) *anyBuilder {
	return &anyBuilder{
		kind:   "origin",
		create: func() *anyBuilder { return wrap_origin(b.Create()) },
		set: func(p *program, field string, v value) error {
			switch field {
			case "genesis":
				b = b.WithGenesis(p.at(v.ref()).(genesis.Unit))
			case "trx":
				b = b.WithTransaction(p.at(v.ref()).(transactions.Transaction))
			default:
				return errField
			}
			return nil
		},
		now: func() (interface{}, error) {
			ins, err := b.Now()
			if err != nil {
				if ins != nil {
					return nil, errBoth
				}
				return nil, err
			}
			if ins == nil {
				return nil, errNothing
			}
			return ins, nil
		},
	}
}

func wrap_content(b transactions.ContentBuilder) *anyBuilder {
	return &anyBuilder{
		kind:   "content",
		create: func() *anyBuilder { return wrap_content(b.Create()) },
		set: func(p *program, field string, v value) error {
			switch field {
			case "owner":
				b = b.WithOwner(p.at(v.ref()).(rings.Ring))
			case "amount":
				b = b.WithAmount(p.hash(v))
			case "origin":
				b = b.WithOrigin(p.at(v.ref()).(transactions.Origin))
			case "external":
				b = b.WithExternal(p.hash(v))
			case "createdOn":
				b = b.CreatedOn(v.time())
			default:
				return errField
			}
			return nil
		},
		now: func() (interface{}, error) {
			ins, err := b.Now()
			if err != nil {
				if ins != nil {
					return nil, errBoth
				}
				return nil, err
			}
			if ins == nil {
				return nil, errNothing
			}
			return ins, nil
		},
	}
}

func wrap_trx(b transactions.TransactionBuilder) *anyBuilder {
	return &anyBuilder{
		kind:   "trx",
		create: func() *anyBuilder { return wrap_trx(b.Create()) },
		set: func(p *program, field string, v value) error {
			switch field {
			case "content":
				b = b.WithContent(p.at(v.ref()).(transactions.Content))
			case "auth":
				b = b.WithAuthorization(p.ringsig(v))
			default:
				return errField
			}
			return nil
		},
		now: func() (interface{}, error) {
			ins, err := b.Now()
			if err != nil {
				if ins != nil {
					return nil, errBoth
				}
				return nil, err
			}
			if ins == nil {
				return nil, errNothing
			}
			return ins, nil
		},
	}
}

func wrap_trxs(b transactions.Builder) *anyBuilder {
	return &anyBuilder{
		kind:   "trxs",
		create: func() *anyBuilder { return wrap_trxs(b.Create()) },
		set: func(p *program, field string, v value) error {
			switch field {
			case "list":
				list := []transactions.Transaction{}
				for _, one := range v.refs() {
					list = append(list, p.at(one).(transactions.Transaction))
				}
				b = b.WithList(list)
			default:
				return errField
			}
			return nil
		},
		now: func() (interface{}, error) {
			ins, err := b.Now()
			if err != nil {
				if ins != nil {
					return nil, errBoth
				}
				return nil, err
			}
			if ins == nil {
				return nil, errNothing
			}
			return ins, nil
		},
	}
}

func wrap_secret(b secrets.SecretBuilder) *anyBuilder {
	return &anyBuilder{
		kind:   "secret",
		create: func() *anyBuilder { return wrap_secret(b.Create()) },
		set: func(p *program, field string, v value) error {
			switch field {
			case "amount":
				b = b.WithAmount(v.uint())
			case "nonce":
				b = b.WithNonce(v.text())
			case "public":
				b = b.WithPublic(p.at(v.ref()).(transactions.Transaction))
			case "origin":
				b = b.WithOrigin(p.at(v.ref()).(secrets.Secret))
			case "sides":
				b = b.WithSides(p.at(v.ref()).(secrets.Secrets))
			default:
				return errField
			}
			return nil
		},
		now: func() (interface{}, error) {
			ins, err := b.Now()
			if err != nil {
				if ins != nil {
					return nil, errBoth
				}
				return nil, err
			}
			if ins == nil {
				return nil, errNothing
			}
			return ins, nil
		},
	}
}

func wrap_secrets(b secrets.Builder) *anyBuilder {
	return &anyBuilder{
		kind:   "secrets",
		create: func() *anyBuilder { return wrap_secrets(b.Create()) },
		set: func(p *program, field string, v value) error {
			switch field {
			case "list":
				list := []secrets.Secret{}
				for _, one := range v.refs() {
					list = append(list, p.at(one).(secrets.Secret))
				}
				b = b.WithList(list)
			default:
				return errField
			}
			return nil
		},
		now: func() (interface{}, error) {
			ins, err := b.Now()
			if err != nil {
				if ins != nil {
					return nil, errBoth
				}
				return nil, err
			}
			if ins == nil {
				return nil, errNothing
			}
			return ins, nil
		},
	}
}

func wrap_receipt(b receipts.Builder) *anyBuilder {
	return &anyBuilder{
		kind:   "receipt",
		create: func() *anyBuilder { return wrap_receipt(b.Create()) },
		set: func(p *program, field string, v value) error {
			switch field {
			case "secret":
				b = b.WithSecret(p.at(v.ref()).(secrets.Secret))
			case "sig":
				b = b.WithSignature(p.sig(v))
			default:
				return errField
			}
			return nil
		},
		now: func() (interface{}, error) {
			ins, err := b.Now()
			if err != nil {
				if ins != nil {
					return nil, errBoth
				}
				return nil, err
			}
			if ins == nil {
				return nil, errNothing
			}
			return ins, nil
		},
	}
}

func wrap_private(b privates.PrivateBuilder) *anyBuilder {
	return &anyBuilder{
		kind:   "private",
		create: func() *anyBuilder { return wrap_private(b.Create()) },
		set: func(p *program, field string, v value) error {
			switch field {
			case "receipt":
				b = b.WithReceipt(p.at(v.ref()).(receipts.Receipt))
			case "pk":
				b = b.WithPrivateKey(p.key(v))
			default:
				return errField
			}
			return nil
		},
		now: func() (interface{}, error) {
			ins, err := b.Now()
			if err != nil {
				if ins != nil {
					return nil, errBoth
				}
				return nil, err
			}
			if ins == nil {
				return nil, errNothing
			}
			return ins, nil
		},
	}
}

func wrap_privates(b privates.Builder) *anyBuilder {
	return &anyBuilder{
		kind:   "privates",
		create: func() *anyBuilder { return wrap_privates(b.Create()) },
		set: func(p *program, field string, v value) error {
			switch field {
			case "list":
				list := []privates.Private{}
				for _, one := range v.refs() {
					list = append(list, p.at(one).(privates.Private))
				}
				b = b.WithList(list)
			default:
				return errField
			}
			return nil
		},
		now: func() (interface{}, error) {
			ins, err := b.Now()
			if err != nil {
				if ins != nil {
					return nil, errBoth
				}
				return nil, err
			}
			if ins == nil {
				return nil, errNothing
			}
			return ins, nil
		},
	}
}

func wrap_block(b chains.BlockBuilder) *anyBuilder {
	return &anyBuilder{
		kind:   "block",
		create: func() *anyBuilder { return wrap_block(b.Create()) },
		set: func(p *program, field string, v value) error {
			switch field {
			case "height":
				b = b.WithHeight(v.uint())
			case "fees":
				b = b.WithFees(p.at(v.ref()).(rings.Ring))
			case "trxs":
				b = b.WithTransactions(p.at(v.ref()).(transactions.Transactions))
			case "previous":
				b = b.WithPrevious(p.hash(v))
			case "createdOn":
				b = b.CreatedOn(v.time())
			default:
				return errField
			}
			return nil
		},
		now: func() (interface{}, error) {
			ins, err := b.Now()
			if err != nil {
				if ins != nil {
					return nil, errBoth
				}
				return nil, err
			}
			if ins == nil {
				return nil, errNothing
			}
			return ins, nil
		},
	}
}

func wrap_chain(b chains.Builder) *anyBuilder {
	return &anyBuilder{
		kind:   "chain",
		create: func() *anyBuilder { return wrap_chain(b.Create()) },
		set: func(p *program, field string, v value) error {
			switch field {
			case "id":
				b = b.WithID(v.uuid())
			case "root":
				b = b.WithRoot(p.hash(v))
			case "head":
				b = b.WithHead(p.at(v.ref()).(chains.Block))
			case "createdOn":
				b = b.CreatedOn(v.time())
			default:
				return errField
			}
			return nil
		},
		now: func() (interface{}, error) {
			ins, err := b.Now()
			if err != nil {
				if ins != nil {
					return nil, errBoth
				}
				return nil, err
			}
			if ins == nil {
				return nil, errNothing
			}
			return ins, nil
		},
	}
}

func wrap_idtrx(b identities.TransactionsBuilder) *anyBuilder {
	return &anyBuilder{
		kind:   "idtrx",
		create: func() *anyBuilder { return wrap_idtrx(b.Create()) },
		set: func(p *program, field string, v value) error {
			switch field {
			case "outgoing":
				b = b.WithOutgoing(p.at(v.ref()).(privates.Privates))
			case "incoming":
				b = b.WithIncoming(p.at(v.ref()).(secrets.Secrets))
			default:
				return errField
			}
			return nil
		},
		now: func() (interface{}, error) {
			ins, err := b.Now()
			if err != nil {
				if ins != nil {
					return nil, errBoth
				}
				return nil, err
			}
			if ins == nil {
				return nil, errNothing
			}
			return ins, nil
		},
	}
}

func wrap_identity(b identities.Builder) *anyBuilder {
	return &anyBuilder{
		kind:   "identity",
		create: func() *anyBuilder { return wrap_identity(b.Create()) },
		set: func(p *program, field string, v value) error {
			switch field {
			case "name":
				b = b.WithName(v.text())
			case "trx":
				b = b.WithTransactions(p.at(v.ref()).(identities.Transactions))
			case "genesis":
				b = b.WithGenesis(p.at(v.ref()).(privates.Privates))
			default:
				return errField
			}
			return nil
		},
		now: func() (interface{}, error) {
			ins, err := b.Now()
			if err != nil {
				if ins != nil {
					return nil, errBoth
				}
				return nil, err
			}
			if ins == nil {
				return nil, errNothing
			}
			return ins, nil
		},
	}
}

func wrap_peer(b peers.PeerBuilder) *anyBuilder {
	return &anyBuilder{
		kind:   "peer",
		create: func() *anyBuilder { return wrap_peer(b.Create()) },
		set: func(p *program, field string, v value) error {
			switch field {
			case "host":
				b = b.WithHost(v.text())
			case "port":
				b = b.WithPort(v.uint())
			case "str":
				b = b.WithString(v.text())
			default:
				return errField
			}
			return nil
		},
		now: func() (interface{}, error) {
			ins, err := b.Now()
			if err != nil {
				if ins != nil {
					return nil, errBoth
				}
				return nil, err
			}
			if ins == nil {
				return nil, errNothing
			}
			return ins, nil
		},
	}
}

func wrap_peers(b peers.Builder) *anyBuilder {
	return &anyBuilder{
		kind:   "peers",
		create: func() *anyBuilder { return wrap_peers(b.Create()) },
		set: func(p *program, field string, v value) error {
			switch field {
			case "list":
				list := []peers.Peer{}
				for _, one := range v.refs() {
					list = append(list, p.at(one).(peers.Peer))
				}
				b = b.WithList(list)
			default:
				return errField
			}
			return nil
		},
		now: func() (interface{}, error) {
			ins, err := b.Now()
			if err != nil {
				if ins != nil {
					return nil, errBoth
				}
				return nil, err
			}
			if ins == nil {
				return nil, errNothing
			}
			return ins, nil
		},
	}
}

func (p *program) dump(kind string, value interface{}) object {
	out := object{}
	switch kind {
	case "ring":
		e := value.(rings.Ring)
		out["hash"] = e.Hash().String()
		list := []string{}
		for _, one := range e.List() {
			list = append(list, p.hashName(one))
		}
		out["list"] = list
	case "rings":
		e := value.(rings.Rings)
		out["hash"] = e.Hash().String()
		list := []string{}
		for _, one := range e.List() {
			list = append(list, one.Hash().String())
		}
		out["list"] = list
	case "unitcontent":
		e := value.(genesis.UnitContent)
		out["hash"] = e.Hash().String()
		out["amount"] = uintText(e.Amount())
		out["nonce"] = e.Nonce()
		out["activatedOn"] = timeObject(e.ActivatedOn())
		out["createdOn"] = timeObject(e.CreatedOn())
	case "unit":
		e := value.(genesis.Unit)
		out["hash"] = e.Hash().String()
		out["content"] = e.Content().Hash().String()
		out["owner"] = e.Owner().Hash().String()
	case "units":
		e := value.(genesis.Units)
		out["hash"] = e.Hash().String()
		list := []string{}
		for _, one := range e.All() {
			list = append(list, one.Hash().String())
		}
		out["list"] = list
	case "genesis":
		e := value.(genesis.Genesis)
		out["hash"] = e.Hash().String()
		out["units"] = e.Units().Hash().String()
		out["fees"] = uintText(e.Fees())
		out["createdOn"] = timeObject(e.CreatedOn())
	case "gprivate":
		e := value.(gprivates.Private)
		out["hash"] = e.Hash().String()
		out["unit"] = e.Unit().Hash().String()
		out["pk"] = p.keyName(e.PrivateKey())
	case "gprivates":
		e := value.(gprivates.Privates)
		out["hash"] = e.Hash().String()
		list := []string{}
		for _, one := range e.List() {
			list = append(list, one.Hash().String())
		}
		out["list"] = list
	case "origin":
		e := value.(transactions.Origin)
		out["hash"] = e.Hash().String()
		if e.IsGenesis() {
			out["genesis"] = e.Genesis().Hash().String()
		}
		if e.IsTransaction() {
			out["trx"] = e.Transaction().Hash().String()
		}
	case "content":
		e := value.(transactions.Content)
		out["hash"] = e.Hash().String()
		out["owner"] = e.Owner().Hash().String()
		out["amount"] = p.hashName(e.Amount())
		out["origin"] = e.Origin().Hash().String()
		out["external"] = p.hashName(e.External())
		out["createdOn"] = timeObject(e.CreatedOn())
	case "trx":
		e := value.(transactions.Transaction)
		out["hash"] = e.Hash().String()
		out["content"] = e.Content().Hash().String()
		out["auth"] = p.ringsigName(e.Authorization())
	case "trxs":
		e := value.(transactions.Transactions)
		out["hash"] = e.Hash().String()
		list := []string{}
		for _, one := range e.List() {
			list = append(list, one.Hash().String())
		}
		out["list"] = list
	case "secret":
		e := value.(secrets.Secret)
		out["hash"] = e.Hash().String()
		out["amount"] = uintText(e.Amount())
		out["nonce"] = e.Nonce()
		out["public"] = e.Public().Hash().String()
		if e.HasOrigin() {
			out["origin"] = e.Origin().Hash().String()
		}
		if e.HasSides() {
			out["sides"] = e.Sides().Hash().String()
		}
	case "secrets":
		e := value.(secrets.Secrets)
		out["hash"] = e.Hash().String()
		list := []string{}
		for _, one := range e.List() {
			list = append(list, one.Hash().String())
		}
		out["list"] = list
	case "receipt":
		e := value.(receipts.Receipt)
		out["hash"] = e.Hash().String()
		out["secret"] = e.Secret().Hash().String()
		out["sig"] = p.sigName(e.Signature())
	case "private":
		e := value.(privates.Private)
		out["hash"] = e.Hash().String()
		out["receipt"] = e.Receipt().Hash().String()
		out["pk"] = p.keyName(e.PrivateKey())
	case "privates":
		e := value.(privates.Privates)
		out["hash"] = e.Hash().String()
		list := []string{}
		for _, one := range e.List() {
			list = append(list, one.Hash().String())
		}
		out["list"] = list
	case "block":
		e := value.(chains.Block)
		out["hash"] = e.Hash().String()
		out["height"] = uintText(e.Height())
		out["fees"] = e.Fees().Hash().String()
		out["trxs"] = e.Transactions().Hash().String()
		if e.HasPrevious() {
			out["previous"] = p.hashName(*e.Previous())
		}
		out["createdOn"] = timeObject(e.CreatedOn())
	case "chain":
		e := value.(chains.Chain)
		out["hash"] = e.Hash().String()
		out["id"] = e.ID().String()
		out["root"] = p.hashName(e.Root())
		if e.HasHead() {
			out["head"] = e.Head().Hash().String()
		}
		out["createdOn"] = timeObject(e.CreatedOn())
	case "idtrx":
		e := value.(identities.Transactions)
		if e.HasOutgoing() {
			out["outgoing"] = e.Outgoing().Hash().String()
		}
		if e.HasIncoming() {
			out["incoming"] = e.Incoming().Hash().String()
		}
	case "identity":
		e := value.(identities.Identity)
		out["name"] = e.Name()
		out["trx"] = p.dump("idtrx", e.Transactions())
		if e.HasGenesis() {
			out["genesis"] = e.Genesis().Hash().String()
		}
	case "peer":
		e := value.(peers.Peer)
		out["host"] = e.Host()
		out["port"] = uintText(e.Port())
		out["str"] = e.String()
	case "peers":
		e := value.(peers.Peers)
		list := []object{}
		for _, one := range e.List() {
			list = append(list, p.dump("peer", one))
		}
		out["list"] = list
	}

	return out
}
