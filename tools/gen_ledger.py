# generates harness/ledger.go from a table
K = []
def kind(name, builder, iface, fields, getters, hashed=True, cfg=None):
    K.append((name, builder, iface, fields, getters, hashed, cfg))
# fields: (name, setter, kind of value)
kind("ring", "rings.NewRingBuilder(uint(cfg.Min), uint(cfg.Max))", "rings.Ring", [("list","WithList","hashes")], [("list","List","hashes",None)], cfg=True)
kind("rings", "rings.NewBuilder()", "rings.Rings", [("list","WithList","[]rings.Ring")], [("list","List","[]",None)])
kind("unitcontent","genesis.NewUnitContentBuilder()","genesis.UnitContent",[("amount","WithAmount","uint"),("nonce","WithNonce","string"),("activatedOn","ActivatedOn","time"),("createdOn","CreatedOn","time")],
     [("amount","Amount","uint",None),("nonce","Nonce","string",None),("activatedOn","ActivatedOn","time",None),("createdOn","CreatedOn","time",None)])
kind("unit","genesis.NewUnitBuilder()","genesis.Unit",[("content","WithContent","genesis.UnitContent"),("owner","WithOwner","rings.Ring")],[("content","Content","ref",None),("owner","Owner","ref",None)])
kind("units","genesis.NewUnitsBuilder()","genesis.Units",[("list","WithList","[]genesis.Unit")],[("list","All","[]",None)])
kind("genesis","genesis.NewBuilder()","genesis.Genesis",[("units","WithUnits","genesis.Units"),("fees","WithFees","uint"),("createdOn","CreatedOn","time")],[("units","Units","ref",None),("fees","Fees","uint",None),("createdOn","CreatedOn","time",None)])
kind("gprivate","gprivates.NewPrivateBuilder()","gprivates.Private",[("unit","WithUnit","genesis.Unit"),("pk","WithPrivateKey","key")],[("unit","Unit","ref",None),("pk","PrivateKey","key",None)])
kind("gprivates","gprivates.NewBuilder()","gprivates.Privates",[("list","WithList","[]gprivates.Private")],[("list","List","[]",None)])
kind("origin","transactions.NewOriginBuilder()","transactions.Origin",[("genesis","WithGenesis","genesis.Unit"),("trx","WithTransaction","transactions.Transaction")],[("genesis","Genesis","ref","IsGenesis"),("trx","Transaction","ref","IsTransaction")])
kind("content","transactions.NewContentBuilder()","transactions.Content",[("owner","WithOwner","rings.Ring"),("amount","WithAmount","hash"),("origin","WithOrigin","transactions.Origin"),("external","WithExternal","hash"),("createdOn","CreatedOn","time")],
     [("owner","Owner","ref",None),("amount","Amount","hash",None),("origin","Origin","ref",None),("external","External","hash",None),("createdOn","CreatedOn","time",None)])
kind("trx","transactions.NewTransactionBuilder()","transactions.Transaction",[("content","WithContent","transactions.Content"),("auth","WithAuthorization","ringsig")],[("content","Content","ref",None),("auth","Authorization","ringsig",None)])
kind("trxs","transactions.NewBuilder()","transactions.Transactions",[("list","WithList","[]transactions.Transaction")],[("list","List","[]",None)])
kind("secret","secrets.NewSecretBuilder()","secrets.Secret",[("amount","WithAmount","uint"),("nonce","WithNonce","string"),("public","WithPublic","transactions.Transaction"),("origin","WithOrigin","secrets.Secret"),("sides","WithSides","secrets.Secrets")],
     [("amount","Amount","uint",None),("nonce","Nonce","string",None),("public","Public","ref",None),("origin","Origin","ref","HasOrigin"),("sides","Sides","ref","HasSides")])
kind("secrets","secrets.NewBuilder()","secrets.Secrets",[("list","WithList","[]secrets.Secret")],[("list","List","[]",None)])
kind("receipt","receipts.NewBuilder()","receipts.Receipt",[("secret","WithSecret","secrets.Secret"),("sig","WithSignature","sig")],[("secret","Secret","ref",None),("sig","Signature","sig",None)])
kind("private","privates.NewPrivateBuilder()","privates.Private",[("receipt","WithReceipt","receipts.Receipt"),("pk","WithPrivateKey","key")],[("receipt","Receipt","ref",None),("pk","PrivateKey","key",None)])
kind("privates","privates.NewBuilder()","privates.Privates",[("list","WithList","[]privates.Private")],[("list","List","[]",None)])
kind("block","chains.NewBlockBuilder()","chains.Block",[("height","WithHeight","uint"),("fees","WithFees","rings.Ring"),("trxs","WithTransactions","transactions.Transactions"),("previous","WithPrevious","hash"),("createdOn","CreatedOn","time")],
     [("height","Height","uint",None),("fees","Fees","ref",None),("trxs","Transactions","ref",None),("previous","Previous","*hash","HasPrevious"),("createdOn","CreatedOn","time",None)])
kind("chain","chains.NewBuilder()","chains.Chain",[("id","WithID","uuid"),("root","WithRoot","hash"),("head","WithHead","chains.Block"),("createdOn","CreatedOn","time")],
     [("id","ID","uuid",None),("root","Root","hash",None),("head","Head","ref","HasHead"),("createdOn","CreatedOn","time",None)])
kind("idtrx","identities.NewTransactionsBuilder()","identities.Transactions",[("outgoing","WithOutgoing","privates.Privates"),("incoming","WithIncoming","secrets.Secrets")],[("outgoing","Outgoing","ref","HasOutgoing"),("incoming","Incoming","ref","HasIncoming")],hashed=False)
kind("identity","identities.NewBuilder()","identities.Identity",[("name","WithName","string"),("trx","WithTransactions","identities.Transactions"),("genesis","WithGenesis","privates.Privates")],[("name","Name","string",None),("trx","Transactions","nested:idtrx",None),("genesis","Genesis","ref","HasGenesis")],hashed=False)
kind("peer","peers.NewPeerBuilder(cfg.Delimiter)","peers.Peer",[("host","WithHost","string"),("port","WithPort","uint"),("str","WithString","string")],[("host","Host","string",None),("port","Port","uint",None),("str","String","string",None)],hashed=False,cfg=True)
kind("peers","peers.NewBuilder()","peers.Peers",[("list","WithList","[]peers.Peer")],[("list","List","nestedlist:peer",None)],hashed=False)

out = '''// Code generated by a table of the builders: see /verif/tools/gen_ledger.py
package main

import (
	"errors"

	"github.com/steve-care-software/steve/domain/chains"
	"github.com/steve-care-software/steve/domain/genesis"
	gprivates "github.com/steve-care-software/steve/domain/genesis/privates"
	"github.com/steve-care-software/steve/domain/identities"
	"github.com/steve-care-software/steve/domain/peers"
	"github.com/steve-care-software/steve/domain/receipts"
	"github.com/steve-care-software/steve/domain/rings"
	"github.com/steve-care-software/steve/domain/transactions"
	"github.com/steve-care-software/steve/domain/transactions/privates"
	"github.com/steve-care-software/steve/domain/transactions/secrets"
)

// anyBuilder is a builder of the ledger
type anyBuilder struct {
	kind   string
	create func() *anyBuilder
	set    func(p *program, field string, v value) error
	now    func() (interface{}, error)
}

var errField = errors.New("unknown field")

func newAnyBuilder(kind string, cfg config) *anyBuilder {
	switch kind {
'''
for name, b, iface, fields, getters, hashed, cfg in K:
    out += '	case "%s":\n		return wrap_%s(%s)\n' % (name, name, b)
out += '	}\n\n	return nil\n}\n\n'
LIT = {"uint": "v.uint()", "string": "v.text()", "time": "v.time()", "hash": "p.hash(v)", "hashes": "p.hashes(v)", "key": "p.key(v)", "sig": "p.sig(v)", "ringsig": "p.ringsig(v)", "uuid": "v.uuid()"}
def bt(iface, b):
    pkg = iface.split(".")[0]; n = b.split(".")[1].split("(")[0]
    return pkg + "." + n[3:]
for name, b, iface, fields, getters, hashed, cfg in K:
    out += 'func wrap_%s(b %s) *anyBuilder {\n	return &anyBuilder{\n		kind: "%s",\n		create: func() *anyBuilder { return wrap_%s(b.Create()) },\n		set: func(p *program, field string, v value) error {\n			switch field {\n' % (name, bt(iface,b), name, name)
    for f, setter, t in fields:
        out += '			case "%s":\n' % f
        if t in LIT:
            out += '				b = b.%s(%s)\n' % (setter, LIT[t])
        elif t.startswith("[]"):
            out += '				list := %s{}\n				for _, one := range v.refs() {\n					list = append(list, p.at(one).(%s))\n				}\n				b = b.%s(list)\n' % (t, t[2:], setter)
        else:
            out += '				b = b.%s(p.at(v.ref()).(%s))\n' % (setter, t)
    out += '			default:\n				return errField\n			}\n			return nil\n		},\n		now: func() (interface{}, error) {\n			ins, err := b.Now()\n			if err != nil {\n				if ins != nil {\n					return nil, errBoth\n				}\n				return nil, err\n			}\n			if ins == nil {\n				return nil, errNothing\n			}\n			return ins, nil\n		},\n	}\n}\n\n'
out += 'func (p *program) dump(kind string, value interface{}) object {\n	out := object{}\n	switch kind {\n'
for name, b, iface, fields, getters, hashed, cfg in K:
    out += '	case "%s":\n		e := value.(%s)\n' % (name, iface)
    if hashed:
        out += '		out["hash"] = e.Hash().String()\n'
    for f, g, t, has in getters:
        ind = '		'
        if has:
            out += '		if e.%s() {\n' % has
            ind = '			'
        call = 'e.%s()' % g
        if t == "ref":
            out += ind + 'out["%s"] = %s.Hash().String()\n' % (f, call)
        elif t == "[]":
            out += ind + 'list := []string{}\n' + ind + 'for _, one := range %s {\n' % call + ind + '	list = append(list, one.Hash().String())\n' + ind + '}\n' + ind + 'out["%s"] = list\n' % f
        elif t.startswith("nestedlist:"):
            out += ind + 'list := []object{}\n' + ind + 'for _, one := range %s {\n' % call + ind + '	list = append(list, p.dump("%s", one))\n' % t[11:] + ind + '}\n' + ind + 'out["%s"] = list\n' % f
        elif t.startswith("nested:"):
            out += ind + 'out["%s"] = p.dump("%s", %s)\n' % (f, t[7:], call)
        elif t == "hashes":
            out += ind + 'list := []string{}\n' + ind + 'for _, one := range %s {\n' % call + ind + '	list = append(list, p.hashName(one))\n' + ind + '}\n' + ind + 'out["%s"] = list\n' % f
        elif t == "*hash":
            out += ind + 'out["%s"] = p.hashName(*%s)\n' % (f, call)
        else:
            D = {"uint": "uintText(%s)", "string": "%s", "time": "timeObject(%s)", "hash": "p.hashName(%s)", "key": "p.keyName(%s)", "sig": "p.sigName(%s)", "ringsig": "p.ringsigName(%s)", "uuid": "%s.String()"}
            out += ind + 'out["%s"] = %s\n' % (f, D[t] % call)
        if has:
            out += '		}\n'
out += '	}\n\n	return out\n}\n'
open("/verif/harness/ledger_table.go","w").write(out)
