import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import make
M = "github.com/steve-care-software/steve/"

def program(imports, body):
    head = "package main\n\nimport (\n" + "".join('\t%s\n' % (i if '"' in i else '"%s"' % i) for i in imports) + ")\n\n"
    return head + '''func check(err error) {
	if err != nil {
		fmt.Println("unexpected error:", err)
		os.Exit(2)
	}
}

func expect(what string, got interface{}, want interface{}) {
	if got != want {
		fmt.Printf("%s: got %v, want %v\\n", what, got, want)
		os.Exit(1)
	}
}
''' + body

S = "domain/cryptography/keys/signature/"
make("S04-members-share-a-scalar", "S04", [(S + "privatekey.go", """	// loop:
	for i := beginIndex; i != signerIndex; i = (i + 1) % r {
		// si = random value
		ss[i] = curve.Scalar().Pick(curve.RandomStream())
""", """	// random value of the members that do not sign:
	random := curve.Scalar().Pick(curve.RandomStream())

	// loop:
	for i := beginIndex; i != signerIndex; i = (i + 1) % r {
		ss[i] = random
""")], "a ring of at least three keys", "the members of a ring that didn't sign share one random value, so the scalar that differs tells who signed",
program(["encoding/base64", "fmt", "os", "strings", M + S[:-1]], '''
func main() {
	ring := []signature.PublicKey{}
	keys := []signature.PrivateKey{}
	for i := 0; i < 4; i++ {
		key := signature.NewPrivateKeyFactory().Create()
		keys = append(keys, key)
		ring = append(ring, key.PublicKey())
	}

	sig, err := keys[1].RingSign("a message", ring)
	check(err)
	expect("verify", sig.Verify("a message"), true)
	decoded, err := base64.StdEncoding.DecodeString(sig.String())
	check(err)
	values := map[string]bool{}
	for _, one := range strings.Split(strings.Trim(strings.Split(string(decoded), "#")[1], "|"), "|") {
		values[one] = true
	}

	expect("amount of values", len(values), 4)
}
'''), lexer=False)
make("S02-verification-stops-at-first-closure", "S02", [(S + "ringsignature.go", """		added := curve.Point().Add(sg, ep)
		e = createHash(msg + added.String())
	}

	return app.e.Equal(e)
""", """		added := curve.Point().Add(sg, ep)
		e = createHash(msg + added.String())

		// the ring is closed:
		if app.e.Equal(e) {
			return true
		}
	}

	return false
""")], "a ring signature to which keys were appended after the ring was signed", "a signature of a ring verifies with additional members at its end",
program(["encoding/base64", "fmt", "os", "strings", M + S[:-1]], '''
func main() {
	a := signature.NewPrivateKeyFactory().Create()
	b := signature.NewPrivateKeyFactory().Create()
	c := signature.NewPrivateKeyFactory().Create()
	sig, err := a.RingSign("a message", []signature.PublicKey{a.PublicKey(), b.PublicKey()})
	check(err)
	decoded, err := base64.StdEncoding.DecodeString(sig.String())
	check(err)
	sections := strings.Split(string(decoded), "#")
	scalar := strings.Split(sections[1], "|")[0]
	sections[0] += c.PublicKey().String() + "|"
	sections[1] += scalar + "|"
	text := base64.StdEncoding.EncodeToString([]byte(strings.Join(sections, "#")))
	other, err := signature.NewRingSignatureAdapter().ToSignature(text)
	check(err)
	expect("ring", len(other.Ring()), 3)
	expect("verify", sig.Verify("a message"), true)
	expect("verify with another member", other.Verify("a message"), false)
}
'''), lexer=False)
make("E01-empty-message-refused", "E01", [("domain/cryptography/encryption.go", "	if len(cipherText) < aes.BlockSize {", "	if len(cipherText) <= aes.BlockSize {")],
 "an empty message", "the encryption of an empty message cannot be decrypted",
program(["fmt", "os", "encryption \"%sdomain/cryptography\"" % M], '''
func main() {
	enc := encryption.NewEncryption("password")
	for _, one := range []string{"a message", "a", ""} {
		text, err := enc.Encrypt([]byte(one))
		check(err)
		back, err := enc.Decrypt(text)
		if err != nil {
			back = []byte(err.Error())
		}

		expect("decrypted", string(back), one)
	}
}
'''), lexer=False)
make("L02-genesis-verifies-first-unit", "L02", [("domain/genesis/builder.go", """	list := app.units.All()
	for index, oneUnit := range list {
		unitCreatedOn := oneUnit.Content().CreatedOn()
		if unitCreatedOn.Before(*app.createdOn) {
			str := fmt.Sprintf("the unit (index: %d, createdOn: %s) was created before the genesis creation time (%s)", index, unitCreatedOn.String(), app.createdOn.String())
			return nil, errors.New(str)
		}
	}
""", """	// the units are sorted by creation time, so the first one is the oldest:
	unitCreatedOn := app.units.All()[0].Content().CreatedOn()
	if unitCreatedOn.Before(*app.createdOn) {
		str := fmt.Sprintf("the unit (index: 0, createdOn: %s) was created before the genesis creation time (%s)", unitCreatedOn.String(), app.createdOn.String())
		return nil, errors.New(str)
	}
""")], "several units, the first of which isn't the oldest", "a genesis is built with units that were created before it",
program(["fmt", "os", "time", M + "domain/genesis", M + "domain/hash", M + "domain/rings"], '''
func unit(createdOn time.Time) genesis.Unit {
	hsh, err := hash.NewAdapter().FromBytes([]byte("owner"))
	check(err)
	owner, err := rings.NewRingBuilder(1, 5).Create().WithList([]hash.Hash{*hsh}).Now()
	check(err)
	content, err := genesis.NewUnitContentBuilder().Create().WithAmount(5).WithNonce("nonce").CreatedOn(createdOn).ActivatedOn(createdOn).Now()
	check(err)
	ins, err := genesis.NewUnitBuilder().Create().WithContent(content).WithOwner(owner).Now()
	check(err)
	return ins
}

func main() {
	now := time.Now()
	for index, offsets := range [][]int{{0}, {1, 2}, {2, 1}, {-1, 1}, {1, -1}} {
		list := []genesis.Unit{}
		for _, one := range offsets {
			list = append(list, unit(now.Add(time.Hour*time.Duration(one))))
		}

		units, err := genesis.NewUnitsBuilder().Create().WithList(list).Now()
		check(err)
		_, err = genesis.NewBuilder().Create().WithUnits(units).WithFees(1).CreatedOn(now).Now()
		expect(fmt.Sprintf("genesis %d is built", index), err == nil, index < 3)
	}
}
'''), lexer=False)
make("L03-created-builder-is-the-builder", "L03", [("domain/rings/ring_builder.go", """	return createRingBuilder(
		app.hashAdapter,
		app.min,
		app.max,
	)
}
""", """	app.list = nil
	return app
}
""")], "two builders created from one, used at the same time", "the builders that are created from a ring builder share its list",
program(["fmt", "os", M + "domain/hash", M + "domain/rings"], '''
func main() {
	a, err := hash.NewAdapter().FromBytes([]byte("a"))
	check(err)
	b, err := hash.NewAdapter().FromBytes([]byte("b"))
	check(err)
	builder := rings.NewRingBuilder(1, 5)
	first := builder.Create().WithList([]hash.Hash{*a})
	second := builder.Create().WithList([]hash.Hash{*b, *a})
	one, err := first.Now()
	check(err)
	other, err := second.Now()
	check(err)
	expect("first", len(one.List()), 1)
	expect("second", len(other.List()), 2)
	_, err = builder.Now()
	expect("the builder is empty", err != nil, true)
}
'''), lexer=False)
make("L01-sides-not-bound-with-origin", "L01", [("domain/transactions/secrets/secret_builder.go", """	if app.origin != nil {
		data = append(data, app.origin.Hash().Bytes())
	}

	if app.sides != nil {
		data = append(data, app.sides.Hash().Bytes())
	}
""", """	if app.origin != nil {
		data = append(data, app.origin.Hash().Bytes())
	} else if app.sides != nil {
		data = append(data, app.sides.Hash().Bytes())
	}
""")], "a secret with both an origin and sides", "the hash of such a secret doesn't bind its sides",
program(["fmt", "os", "time", M + "domain/cryptography/keys/signature", M + "domain/genesis", M + "domain/hash", M + "domain/rings", M + "domain/transactions", M + "domain/transactions/secrets"], '''
func main() {
	hsh, err := hash.NewAdapter().FromBytes([]byte("a"))
	check(err)
	key := signature.NewPrivateKeyFactory().Create()
	auth, err := key.RingSign("a", []signature.PublicKey{key.PublicKey()})
	check(err)
	owner, err := rings.NewRingBuilder(1, 5).Create().WithList([]hash.Hash{*hsh}).Now()
	check(err)
	unitContent, err := genesis.NewUnitContentBuilder().Create().WithAmount(5).WithNonce("nonce").CreatedOn(time.Now()).ActivatedOn(time.Now()).Now()
	check(err)
	unit, err := genesis.NewUnitBuilder().Create().WithContent(unitContent).WithOwner(owner).Now()
	check(err)
	origin, err := transactions.NewOriginBuilder().Create().WithGenesis(unit).Now()
	check(err)
	content, err := transactions.NewContentBuilder().Create().WithOwner(owner).WithAmount(*hsh).WithOrigin(origin).WithExternal(*hsh).CreatedOn(time.Now()).Now()
	check(err)
	public, err := transactions.NewTransactionBuilder().Create().WithContent(content).WithAuthorization(auth).Now()
	check(err)
	secret := func(nonce string, origin secrets.Secret, sides secrets.Secrets) secrets.Secret {
		builder := secrets.NewSecretBuilder().Create().WithAmount(5).WithNonce(nonce).WithPublic(public)
		if origin != nil {
			builder = builder.WithOrigin(origin)
		}

		if sides != nil {
			builder = builder.WithSides(sides)
		}

		ins, err := builder.Now()
		check(err)
		return ins
	}

	a, b := secret("a", nil, nil), secret("b", nil, nil)
	sidesA, err := secrets.NewBuilder().Create().WithList([]secrets.Secret{a}).Now()
	check(err)
	sidesB, err := secrets.NewBuilder().Create().WithList([]secrets.Secret{b}).Now()
	check(err)
	one, other, without := secret("n", a, sidesA), secret("n", a, sidesB), secret("n", a, nil)
	expect("same hash with other sides", one.Hash().Compare(other.Hash()), false)
	expect("same hash without sides", one.Hash().Compare(without.Hash()), false)
}
'''), lexer=False)
make("L04-host-with-delimiters", "L04", [("domain/peers/peer_builder.go", "		if len(sections) != 2 {", "		if len(sections) < 2 {")],
 "a text that contains the delimiter more than once", "the port is read in the middle of the text and what follows it is lost",
program(["fmt", "os", M + "domain/peers"], '''
func main() {
	peer, err := peers.NewPeerBuilder(":").Create().WithString("host:80").Now()
	check(err)
	expect("port", peer.Port(), uint(80))
	_, err = peers.NewPeerBuilder(":").Create().WithString("host:80:90").Now()
	expect("two delimiters are refused", err != nil, true)
}
'''), lexer=False)
H = "domain/hashtree/"
make("H01-order-of-children-not-bound", "H01", [(H + "leaf.go", """	data := bytes.Join([][]byte{
		left.Head().Bytes(),
		right.Head().Bytes(),
	}, []byte{})
""", """	// the children are hashed in order, so that a proof does not need their sides:
	first, second := left.Head().Bytes(), right.Head().Bytes()
	if bytes.Compare(first, second) > 0 {
		first, second = second, first
	}

	data := bytes.Join([][]byte{
		first,
		second,
	}, []byte{})
""")], "at least three blocks, two of which are exchanged below the same parent", "lists of blocks in another order have the same root",
program(["fmt", "os", M + "domain/hashtree"], '''
func root(blocks ...string) string {
	data := [][]byte{}
	for _, one := range blocks {
		data = append(data, []byte(one))
	}

	tree, err := hashtree.NewBuilder().Create().WithBlocks(data).Now()
	check(err)
	return tree.Head().String()
}

func main() {
	expect("two blocks", root("a", "b") == root("b", "a"), false)
	expect("four blocks", root("a", "b", "c", "d") == root("b", "a", "c", "d"), false)
	expect("four blocks, right", root("a", "b", "c", "d") == root("a", "b", "d", "c"), false)
}
'''), lexer=False)
make("H02-copies-beyond-the-tree", "H02", [(H + "hashtree.go", """	if len(out) != len(data) {
""", """	// data can't be missing once every leaf has its block:
	if len(out) < len(leaves) && len(out) != len(data) {
""")], "a tree without filling leaves, all the blocks of which are given, with additional ones", "data with blocks that the tree doesn't have is reordered, without them",
program(["fmt", "os", "strings", M + "domain/hashtree"], '''
func main() {
	for _, one := range []string{"a,b a,b true", "a,b b,a true", "a,b b true", "a,b c false", "a,b a,b,c false", "a,b a,a,b false", "a,b,c a,b,c,d false", "a,b,c,d d,c,b,a,a false"} {
		parts := strings.Split(one, " ")
		data, mixed := [][]byte{}, [][]byte{}
		for _, block := range strings.Split(parts[0], ",") {
			data = append(data, []byte(block))
		}

		for _, block := range strings.Split(parts[1], ",") {
			mixed = append(mixed, []byte(block))
		}

		tree, err := hashtree.NewBuilder().Create().WithBlocks(data).Now()
		check(err)
		_, err = tree.Order(mixed)
		expect(one, fmt.Sprintf("%t", err == nil), parts[2])
	}
}
'''), lexer=False)
make("H03-padded-with-last-block", "H03", [(H + "block.go", """	remaining := int(next) - int(lengthAsFloat)
	for i := 0; i < remaining; i++ {
		single, err := hash.NewAdapter().FromBytes(nil)
		if err != nil {
			return nil, err
		}

		obj.list = append(obj.list, *single)
	}
""", """	remaining := int(next) - int(lengthAsFloat)
	last := obj.list[len(obj.list)-1]
	for i := 0; i < remaining; i++ {
		obj.list = append(obj.list, last)
	}
""")], "a number of blocks that isn't a power of two", "a tree is padded with its last block instead of empty blocks, so two lists of different blocks share a root",
program(["fmt", "os", M + "domain/hashtree"], '''
func root(blocks ...string) string {
	data := [][]byte{}
	for _, one := range blocks {
		data = append(data, []byte(one))
	}

	tree, err := hashtree.NewBuilder().Create().WithBlocks(data).Now()
	check(err)
	return tree.Head().String()
}

func main() {
	expect("a repeated block", root("a", "b", "c") == root("a", "b", "c", "c"), false)
	expect("a padded tree", root("a", "b", "c"), root("a", "b", "c", ""))
}
'''), lexer=False)

# ------------------------------------------------------------------ lexers
L = "domain/languages/lexers/"
make("X06-recursive-specifiers-lost", "X06", [(L + "asts/paths/adapter.go", """			recursiveTokenBuilder := app.rescursiveTokenBuilder.Create().WithName(tokenReferenceName).WithCardinality(cardinality)
			if tokenReference.HasSpecifiers() {
				parsedSpecifiers := tokenReference.Specifiers()
				specifiers, err := app.buildSpecifiers(parsedSpecifiers)
				if err != nil {
					return nil, nil, err
				}

				recursiveTokenBuilder.WithSpecifiers(specifiers)
			}

			recursiveToken, err := recursiveTokenBuilder.Now()
""", """			// the specifiers are validated when the token is evaluated:
			recursiveTokenBuilder := app.rescursiveTokenBuilder.Create().WithName(tokenReferenceName).WithCardinality(cardinality)
			recursiveToken, err := recursiveTokenBuilder.Now()
""")], "a recursive reference with a specifier that its token violates", "the specifiers of recursive references aren't verified",
'''package main

func main() {
	g := grammar{root: "root", rules: "A: \\"a\\";\\nB: \\"b\\";\\nC: \\"c\\";\\n", tokens: "root : t\\n ;\\nt : A t-> C{1} <- A\\n | B C*\\n ;\\n"}
	lex(g, "abca", "root0(t0('a't1('b''c')'a'))")
	lex(g, "abcca", "mistake")
	lex(g, "aba", "mistake")
}
''')
make("X09-second-channel-prefix-lost", "X09", [(L + "asts/adapter.go", """	if content.IsBlock() {
		blockMatch := content.Block()
		matches, err := app.blockMatch(tokenName, blockMatch)
		if err != nil {
			return nil, err
		}

		matchList = append(matchList, matches...)
	}
""", """	if content.IsBlock() {
		// retrieve the element that follows the channels:
		blockContent := content.Block().Content()
		for blockContent.IsBlock() {
			blockContent = blockContent.Block().Content()
		}

		if blockContent.IsContainer() {
			match, err := app.match(blockContent.Container())
			if err != nil {
				return nil, err
			}

			if match != nil {
				matchList = append(matchList, match)
			}
		}
	}
""")], "an element that several channel texts precede", "the second channel text isn't in the syntax tree",
'''package main

func main() {
	g := grammar{root: "root", rules: "A: \\"a\\";\\nB: \\"b\\";\\nS: \\" \\";\\nT: \\"_\\";\\n", tokens: "root : A B\\n ;\\n", channels: "sp : S\\n ;\\ntab : T\\n ;\\n"}
	lex(g, "ab", "root0('a''b')")
	lex(g, "a b", "root0('a'' ''b')")
	lex(g, "a _b", "root0('a'' ''_''b')")
}
''')
make("X12-first-quote-escaped-only", "X12", [(L + "containers/rules/adapter.go", "	content = strings.Replace(content, escaped, app.escapeReplacementCode, -1)\n", "	content = strings.Replace(content, escaped, app.escapeReplacementCode, 1)\n")],
 "a constant with two escaped quotes", "the second escaped quote ends the constant",
'''package main

func main() {
	g := grammar{root: "root", rules: "A: \\"a\\\\\\"b\\";\\nB: \\"\\\\\\"x\\\\\\"\\";\\n", tokens: "root : A? B\\n ;\\n"}
	lex(g, "\\"x\\"", "root0('\\"x\\"')")
	lex(g, "a\\"b\\"x\\"", "root0('a\\"b''\\"x\\"')")
	lex(g, "\\"x", "mistake")
}
''')
make("X13-reference-loses-its-not-block", "X13", [("applications/languages/lexers/application.go", """	newElementBuilder := app.astPathElementBuilder.Create().WithName(localTokenName).WithMust(pathElementMustLines)
	if pathElement.HasNot() {
		pathElementNotLines := pathElement.Not()
		newElementBuilder.WithNot(pathElementNotLines)
	}

	newElement, err := newElementBuilder.Now()
""", """	newElement, err := app.astPathElementBuilder.Create().WithName(localTokenName).WithMust(pathElementMustLines).Now()
""")], "a reference to a token that declares a not block", "a referenced token matches what its not block rejects",
'''package main

func main() {
	g := grammar{root: "root", rules: "A: \\"a\\";\\nB: \\"b\\";\\n", files: map[string]string{"other.rules": "A: \\"a\\";\\nB: \\"b\\";\\n", "other.tokens": "word : A{1,}\\n --- : A A B\\n ;\\n"}}
	g.tokens = "include other \\"other.rules;other.tokens\\"\\nreference local other.word\\n\\nroot : local B\\n ;\\n"
	lex(g, "ab", "root0(local0('a')'b')")
	lex(g, "aaab", "root0(local0('aaa')'b')")
	lex(g, "aab", "mistake")
}
''')
make("X14-test-lines-are-trimmed", "X14", [(L + "containers/tokens/adapter.go", """	for _, oneLineContent := range linesContent {
		if oneLineContent == "" {
			continue
		}

		lines = append(lines, oneLineContent)
	}
""", """	for _, oneLineContent := range linesContent {
		trimmedLine := strings.TrimSpace(oneLineContent)
		if trimmedLine == "" {
			continue
		}

		lines = append(lines, trimmedLine)
	}
""")], "a test line that starts or ends with spaces that no channel consumes", "the verdict of a test line is the one of another text",
'''package main

import (
	"fmt"

	"github.com/steve-care-software/steve/domain/languages/lexers/resources/containers"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/multiples"
)

func main() {
	g := grammar{patterns: "unused: UNUSED;\\nUNUSED: $UNUSED;\\n$UNUSED: \\"zz\\";\\n", rules: "A: \\"a\\";\\nB: \\"b\\";\\n"}
	container, err := containers.NewBuilder().Create().WithPatterns(g.patterns).WithRules(g.rules).WithTokens("root : A B\\n +++ :ab### ab###a###\\n ;\\n").Now()
	check(err)
	multiple, err := multiples.NewBuilder().Create().WithContainer(container).Now()
	check(err)
	suites, err := newApplication(g).Tests(multiple)
	check(err)
	out := ""
	for _, suite := range suites {
		for _, line := range suite.Lines() {
			out += fmt.Sprintf("%t ", line.IsSuccess())
		}
	}

	fmt.Println(out)
	expect("lines", out[:17], "true false false ")
}
''')
make("X15-first-occurrence-searched-only", "X15", [(L + "roots/containers.go", """		root, node, subContainer, content, err := container.Scan(name)
		if err != nil {
			continue
		}
""", """		root, node, subContainer, content, err := container.Scan(name)
		if err != nil {
			return nil, nil, nil, "", err
		}
""")], "a name that occurs below the second occurrence of an element, not below the first", "such names aren't found",
'''package main

import (
	"fmt"

	"github.com/steve-care-software/steve/domain/languages/lexers/contents"
)

func main() {
	g := grammar{root: "root", rules: "A: \\"a\\";\\nB: \\"b\\";\\n", tokens: "root : t{1,}\\n ;\\nt : A\\n | B\\n ;\\n"}
	content, err := contents.NewBuilder().Create().WithContent("ab").Now()
	check(err)
	root, mistake, err := newApplication(g).Root(newSingle(g), content)
	check(err)
	expect("mistake", fmt.Sprint(mistake == nil), "true")
	for _, name := range []string{"A", "B"} {
		_, node, _, _, err := root.Scan(name)
		expect(name+" is found", fmt.Sprint(err == nil && node != nil), "true")
	}
}
''')
make("X16-failed-elements-are-left-out", "X16", [("applications/languages/parsers/manager.go", """		list, ins, err := app.fetchContentOrExecuteEvent(name, oneContainer)
		if err != nil {
			return nil, err
		}

		if list != nil {
			out = append(out, list)
			continue
		}
""", """		list, ins, err := app.fetchContentOrExecuteEvent(name, oneContainer)
		if err != nil {
			log.Printf("%s: %s", name, err.Error())
			continue
		}

		if list != nil {
			out = append(out, list)
			continue
		}
""")], "an element occurring several times, of which the event fails for some", "a list is built without the elements whose events failed",
'''package main

import (
	"errors"
	"fmt"
	"io/ioutil"
	"log"

	"github.com/steve-care-software/steve/applications/languages/parsers"
	"github.com/steve-care-software/steve/domain/languages/lexers/contents"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
)

func main() {
	log.SetOutput(ioutil.Discard)
	g := grammar{root: "root", rules: "A: \\"a\\";\\nB: \\"b\\";\\n", tokens: "root : t{1,}\\n ;\\nt : A\\n | B\\n ;\\n"}
	run := func(script string) string {
		content, err := contents.NewBuilder().Create().WithContent(script).Now()
		check(err)
		root, _, err := newApplication(g).Root(newSingle(g), content)
		check(err)
		ins, err := parsers.NewApplication().Execute(root, map[string][]parsers.EventFunc{
			"root": {func(root roots.Root, manager parsers.Manager) (interface{}, error) {
				res, err := manager.Trigger("t", root)
				if err != nil {
					return nil, err
				}

				return fmt.Sprint(res.List()), nil
			}},
			"t": {func(root roots.Root, manager parsers.Manager) (interface{}, error) {
				if root.Content() == "b" {
					return nil, errors.New("not supported")
				}

				return root.Content(), nil
			}},
		})

		if err != nil {
			return "error"
		}

		return fmt.Sprint(ins)
	}

	expect("aa", run("aa"), "[a a]")
	expect("aba", run("aba"), "error")
}
''')
make("X17-smallest-integers-wrap", "X17", [("domain/languages/scripts/base/parsers/helper.go", """			if root.Nodes().Exists("MINUS") {
				str := fmt.Sprintf("-%s", intValue)
				intValue, err := strconv.ParseInt(str, 10, int(bitsize))
				if err != nil {
					return nil, err
				}

				return builder.WithInt(int(intValue)).Now()
			}

			uintValue, err := strconv.ParseUint(intValue, 10, int(bitsize))
			if err != nil {
				return nil, err
			}

			return builder.WithUint(uint(uintValue)).Now()
""", """			uintValue, err := strconv.ParseUint(intValue, 10, int(bitsize))
			if err != nil {
				return nil, err
			}

			if root.Nodes().Exists("MINUS") {
				return builder.WithInt(-int(uintValue)).Now()
			}

			return builder.WithUint(uint(uintValue)).Now()
""")], "a negative number that doesn't fit a signed word but fits an unsigned one", "the number becomes another one instead of being refused",
'''package main

import (
	"fmt"
	"io/ioutil"
	"log"
	"os"

	lexers "github.com/steve-care-software/steve/applications/languages/lexers"
	"github.com/steve-care-software/steve/applications/languages/parsers"
	"github.com/steve-care-software/steve/domain/languages/lexers/contents"
	"github.com/steve-care-software/steve/domain/languages/scripts"
	base "github.com/steve-care-software/steve/domain/languages/scripts/base/parsers"
)

func check(err error) {
	if err != nil {
		fmt.Println("unexpected error:", err)
		os.Exit(2)
	}
}

func main() {
	log.SetOutput(ioutil.Discard)
	dir := "domain/languages/scripts/resources"
	app := lexers.NewLexerForTests(dir, dir, dir)
	single := scripts.NewSingleResourceForTests("intValue", dir, "base")
	for _, one := range [][2]string{{"-12", "-12"}, {"-9223372036854775808", "-9223372036854775808"}, {"18446744073709551615", "18446744073709551615"}, {"-9223372036854775809", "error"}, {"-18446744073709551615", "error"}} {
		content, err := contents.NewBuilder().Create().WithContent(one[0]).Now()
		check(err)
		root, mistake, err := app.Root(single, content)
		check(err)
		got := "error"
		if mistake == nil {
			ins, err := parsers.NewApplication().Execute(root, base.NewEvents(64))
			if err == nil {
				got = fmt.Sprint(ins.(base.Value).Element())
			}
		}

		if got != one[1] {
			fmt.Printf("%s: got %s, want %s\\n", one[0], got, one[1])
			os.Exit(1)
		}
	}
}
''', lexer=False)
make("X10-adapters-are-kept-by-root", "X10", [("applications/languages/lexers/application.go", """	replacementPaths          map[string]asts_paths.Path
	tokenPaths""", """	replacementPaths          map[string]asts_paths.Path
	tokens                    map[string]tokens.Tokens
	tokenPaths""")] if False else [("domain/languages/lexers/containers/rules/adapter.go", """	rules, err := app.rulesList(content, patterns)
	if err != nil {
		return nil, err
	}

	return app.builder.Create().WithRules(rules).Now()
""", """	// the same content declares the same rules, so parse it once:
	if rules, ok := loaded[content]; ok {
		return rules, nil
	}

	rules, err := app.rulesList(content, patterns)
	if err != nil {
		return nil, err
	}

	ins, err := app.builder.Create().WithRules(rules).Now()
	if err != nil {
		return nil, err
	}

	loaded[content] = ins
	return ins, nil
"""), ("domain/languages/lexers/containers/rules/adapter.go", "type adapter struct {\n", "var loaded = map[string]Rules{}\n\ntype adapter struct {\n")],
 "two grammars with the same rules and other patterns, used in one process", "the second grammar uses the patterns of the first one",
'''package main

func main() {
	g := grammar{root: "root", patterns: "pa: S_A;\\n\\nS_A: $G_A;\\n\\n$G_A: \\"a,b\\";\\n", rules: "R: [pa]{1};\\nB: \\"b\\";\\n", tokens: "root : R B\\n ;\\n"}
	lex(g, "ab", "root0('a''b')")
	lex(g, "cb", "mistake")
	g.patterns = "pa: S_A;\\n\\nS_A: $G_A;\\n\\n$G_A: \\"c,d\\";\\n"
	lex(g, "cb", "root0('c''b')")
	lex(g, "ab", "mistake")
}
''')
