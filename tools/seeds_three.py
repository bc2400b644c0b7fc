import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import make
M = "github.com/steve-care-software/steve/"
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "program.py")).read())
S = "domain/cryptography/keys/signature/"

make("L05-texts-with-a-hexadecimal-prefix", "L05", [("domain/hash/adapter.go", "	bytes, err := hex.DecodeString(input)\n", "	bytes, err := hex.DecodeString(strings.TrimPrefix(input, \"0x\"))\n"),
 ("domain/hash/adapter.go", '	"encoding/hex"\n', '	"encoding/hex"\n	"strings"\n')],
 "a text that begins with 0x", "a text that isn't hexadecimal is read as a hash", program(["fmt", "os", M + "domain/hash"], '''
func main() {
	one, err := hash.NewAdapter().FromBytes([]byte("some data"))
	check(err)
	again, err := hash.NewAdapter().FromString(one.String())
	check(err)
	expect("the hash read back", again.Compare(*one), true)
	_, err = hash.NewAdapter().FromString("0x" + one.String())
	expect("the text is refused", err != nil, true)
}
'''), lexer=False)

make("S01-spaces-of-messages-are-not-signed", "S01", [(S + "helper.go", '	"encoding/hex"\n', '	"encoding/hex"\n	"strings"\n'),
 (S + "helper.go", "	return createHash(msg + x.String())", "	return createHash(strings.TrimSpace(msg) + x.String())"),
 (S + "helper.go", "	sha256.Write([]byte(msg))", "	sha256.Write([]byte(strings.TrimLeft(msg, \" \")))")],
 "messages that begin with spaces", "the signature of a message is the signature of other messages as well", program(["fmt", "os", M + S[:-1]], '''
func main() {
	key := signature.NewPrivateKeyFactory().Create()
	sig, err := key.Sign("pay 10")
	check(err)
	expect("the message", sig.PublicKey("pay 10").Equals(key.PublicKey()), true)
	expect("another message", sig.PublicKey(" pay 10").Equals(key.PublicKey()), false)
}
'''), lexer=False)

make("S03-copies-of-a-member-are-not-compared", "S03", [(S + "ringsignature_adapter.go", "		if !ringPubKeyHash.Compare(pubKeyHashes[index]) {", """		// a copy of the previous member has been compared already:
		isCopy := index > 0 && oneRingPubKey.Equals(ringPubKeys[index-1])
		if !isCopy && !ringPubKeyHash.Compare(pubKeyHashes[index]) {""")],
 "a ring with the same key twice in a row", "a ring signature is accepted for a list that announces another key than its ring", program(["fmt", "os", M + "domain/hash", M + S[:-1]], '''
func main() {
	one := signature.NewPrivateKeyFactory().Create()
	two := signature.NewPrivateKeyFactory().Create()
	sig, err := one.RingSign("a message", []signature.PublicKey{one.PublicKey(), one.PublicKey()})
	check(err)
	hashOne, err := hash.NewAdapter().FromString(one.PublicKey().String())
	check(err)
	hashTwo, err := hash.NewAdapter().FromString(two.PublicKey().String())
	check(err)
	adapter := signature.NewRingSignatureAdapter()
	isValid, err := adapter.ToVerification(sig, "a message", []hash.Hash{*hashOne, *hashOne})
	check(err)
	expect("its keys", isValid, true)
	isValid, _ = adapter.ToVerification(sig, "a message", []hash.Hash{*hashOne, *hashTwo})
	expect("other keys", isValid, false)
}
'''), lexer=False)

make("S05-bytes-after-a-point-are-ignored", "S05", [(S + "helper.go", "	err := p.UnmarshalBinary(decoded)", "	_, err := p.UnmarshalFrom(bytes.NewReader(decoded))")],
 "the text of a public key followed by other bytes", "malformed texts are read as public keys", program(["fmt", "os", M + S[:-1]], '''
func main() {
	key := signature.NewPrivateKeyFactory().Create().PublicKey()
	adapter := signature.NewPublicKeyAdapter()
	again, err := adapter.ToPublicKey(key.String())
	check(err)
	expect("the key read back", again.Equals(key), true)
	_, err = adapter.ToPublicKey(key.String() + "ab")
	expect("the text is refused", err != nil, true)
}
'''), lexer=False)

make("E02-zeros-at-the-end-are-lost", "E02", [("domain/cryptography/keys/encryption/privatekey.go", '	"crypto/rand"\n', '	"bytes"\n	"crypto/rand"\n'),
 ("domain/cryptography/keys/encryption/privatekey.go", "	return decrypted, nil", "	return bytes.TrimRight(decrypted, \"\\x00\"), nil")],
 "a message that ends with zero bytes", "the decrypted message is another one than the encrypted message", program(["fmt", "os", M + "domain/cryptography/keys/encryption"], '''
func main() {
	key, err := encryption.NewFactory(1024).Create()
	check(err)
	for _, msg := range []string{"a message", "a\\x00b", "a message\\x00\\x00"} {
		cipher, err := key.Public().Encrypt([]byte(msg))
		check(err)
		back, err := key.Decrypt(cipher)
		check(err)
		expect("the message", fmt.Sprintf("%q", back), fmt.Sprintf("%q", msg))
	}
}
'''), lexer=False)

make("X01-maximums-are-read-as-bytes", "X01", [("domain/languages/lexers/cardinality/specific_adapter.go", "			rangeBuilder.WithMaximum(uint(max))", """			rangeBuilder.WithMaximum(uint(uint8(max)))""")],
 "a range whose maximum exceeds 255", "amounts between the written maximum and the read one are refused", '''package main

import "strings"

func main() {
	g := grammar{root: "root", rules: "A: \\"a\\";\\nB: \\"b\\";\\n", tokens: "root : A{2,258} B\\n ;\\n"}
	lex(g, "aab", "root0('aa''b')")
	lex(g, "ab", "mistake")
	lex(g, "aaab", "root0('aaa''b')")
	lex(g, strings.Repeat("a", 259)+"b", "mistake")
}
''')

make("X04-shorter-line-wins-ties", "X04", [("domain/languages/lexers/asts/tokens/adapter.go", "		if discoveriesLength > biggestValidDiscoveries {", """		isSimpler := validMatches != nil && discoveriesLength == biggestValidDiscoveries && len(matches.BlockMatches()) < len(validMatches.BlockMatches())
		if discoveriesLength > biggestValidDiscoveries || isSimpler {""")],
 "two lines of a token that match the same text with different amounts of elements", "the last line wins instead of the first one", '''package main

func main() {
	g := grammar{root: "root", rules: "A: \\"a\\";\\nB: \\"b\\";\\nAB: \\"ab\\";\\n", tokens: "root : A B\\n | AB\\n ;\\n"}
	lex(g, "ab", "root0('a''b')")
	g.tokens = "root : AB\\n | A B\\n ;\\n"
	lex(g, "ab", "root0('ab')")
}
''')

MA = "domain/languages/lexers/asts/mistakes/adapter.go"
MAIN = '''package main

import (
	"fmt"

	"github.com/steve-care-software/steve/domain/languages/lexers/contents"
)

func mistakeOf(g grammar, script string) string {
	content, err := contents.NewBuilder().Create().WithContent(script).Now()
	check(err)
	ast, err := newApplication(g).AST(newSingle(g), content)
	check(err)
	if !ast.IsMistake() {
		return "no mistake"
	}

	told := ast.Mistake().Content()
	if told.IsSpecifierDoNotMatch() {
		specifier := told.SpecifierDoNotMatch()
		return fmt.Sprintf("%d %s", specifier.Amount(), specifier.ContainerName())
	}

	if told.IsContainsValidNotMatch() {
		return fmt.Sprintf("not line %d", told.ContainsValidNotMatch().Line())
	}

	return "something else"
}

'''
make("X19-amount-of-the-first-specifier", "X19", [(MA, "		amount := oneSpecifier.Amount()\n", "		amount := specifiers[0].Amount()\n")],
 "a token with several specifiers, of which a later one fails", "the mistake tells the amount of another element", MAIN + '''func main() {
	g := grammar{root: "root", rules: "A: \\"a\\";\\nB: \\"b\\";\\nC: \\"c\\";\\n", tokens: "root : tA-> A{1} B{2} <- C\\n ;\\n\\ntA : A B+\\n ;\\n"}
	expect("abbc", mistakeOf(g, "abbc"), "no mistake")
	expect("abbbc", mistakeOf(g, "abbbc"), "3 B")
}
''')
make("X19-line-of-the-mandatory-block", "X19", [(MA, "			index := not.Index()\n", "			index := content.Must().Index()\n")],
 "a not block of which a line matches, in another place than the line that matches in the mandatory block", "the mistake names a not line that doesn't match", MAIN + '''func main() {
	g := grammar{root: "root", rules: "A: \\"a\\";\\nB: \\"b\\";\\nC: \\"c\\";\\n", tokens: "root : A\\n | B\\n ---\\n : C\\n | C\\n | A\\n ;\\n"}
	expect("b", mistakeOf(g, "b"), "no mistake")
	expect("a", mistakeOf(g, "a"), "not line 2")
}
''')
make("X02-options-taken-as-sorted", "X02", [("domain/languages/lexers/containers/patterns/groupcontent.go", """		if strings.HasPrefix(content, oneElement) {
			prefixLength := len(oneElement)
			if prefixLength >= longest {
				longest = prefixLength
			}
		}
""", """		if !strings.HasPrefix(content, oneElement) {
			// the options that begin the same way follow each other:
			if longest > 0 {
				break
			}

			continue
		}

		prefixLength := len(oneElement)
		if prefixLength >= longest {
			longest = prefixLength
		}
""")], "a group with a longer option that comes after an option that doesn't match", "the longest option of the group isn't matched", '''package main

func main() {
	g := grammar{root: "root", patterns: "pa: S_A;\\n\\nS_A: $G_A;\\n\\n$G_A: \\"a,ab,x,abc\\";\\n", rules: "R: [pa]{1};\\nD: \\"d\\";\\n", tokens: "root : R D\\n ;\\n"}
	lex(g, "ad", "root0('a''d')")
	lex(g, "abd", "root0('ab''d')")
	lex(g, "abcd", "root0('abc''d')")
}
''')

PD = "domain/languages/lexers/asts/paths/adapter.go"
make("X20-specifiers-of-the-same-element", "X20", [(PD, "	for _, oneSpecifier := range list {\n", """	for index, oneSpecifier := range list {
		if index > 0 && list[index-1].Content().Name() == oneSpecifier.Content().Name() {
			continue
		}

""")], "a reference whose specifiers name the same element one after the other", "the path has the first of these specifiers only", '''package main

import (
	"fmt"
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/resources/containers"
	resources_paths "github.com/steve-care-software/steve/domain/languages/lexers/resources/paths"
)

func specifiers(line string) string {
	container, err := containers.NewBuilder().Create().WithPatterns("unused: S_A;\\n\\nS_A: $G_A;\\n\\n$G_A: \\"zz\\";\\n").WithRules("A: \\"a\\";\\nB: \\"b\\";\\n").
		WithTokens("root : " + line + "\\n ;\\n\\nitem : A* B*\\n ;\\n").Now()
	check(err)
	resource, err := resources_paths.NewBuilder().Create().WithContainer(container).WithRootToken("root").Now()
	check(err)
	path, err := newApplication(grammar{}).Path(resource)
	check(err)
	out := []string{}
	for _, one := range path.Element().Must()[0].Instructions()[0].Container().Token().Path().Specifiers() {
		out = append(out, fmt.Sprintf("%s %t %t", one.ContainerName(), one.Cardinality().IsValid(1), one.Cardinality().IsValid(3)))
	}

	return strings.Join(out, ", ")
}

func main() {
	expect("the specifiers", specifiers("item-> A{1} B{1,} <-"), "A true false, B true true")
	expect("the specifiers of the same element", specifiers("item-> A{1,} A{0,2} B{1} <-"), "A true true, A true false, B true false")
}
''')
make("X20-links-are-grouped-by-include", "X20", [("domain/languages/lexers/references/links/builder.go", """	for _, oneLink := range app.list {
		includeName := oneLink.Include().Name()
		if _, ok := mpRefToken[includeName]; !ok {""", """	for index, oneLink := range app.list {
		includeName := oneLink.Include().Name()
		if index == 0 || app.list[index-1].Include().Name() != includeName {""")],
 "references to an include, with a reference to another include between them", "the first reference to the include isn't found by its reference token", '''package main

func main() {
	references, err := newApplication(grammar{}).References("include one \\"a.rules;a.tokens\\"\\ninclude two \\"b.rules;b.tokens\\"\\nreference first one.item\\nreference second two.item\\nreference third one.other\\n\\nroot : first\\n ;\\n")
	check(err)
	for _, one := range [][]string{{"one", "other", "third"}, {"two", "item", "second"}, {"one", "item", "first"}} {
		link, err := references.References().FetchByReferenceToken(one[0], one[1])
		check(err)
		expect("the local token of "+one[0]+"."+one[1], link.LocalToken(), one[2])
	}
}
''')
