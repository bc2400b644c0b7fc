import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import make
T="domain/languages/lexers/asts/tokens/"
C="domain/languages/lexers/containers/"
make("X05-shorter-not-tolerated","X05",[(T+"tokencontent.go","""func (obj *tokenContent) IsValid() bool {
	if obj.HasNot() && obj.Not().Matches().IsValid() {
		return false
	}

	return obj.must.Matches().IsValid()""","""func (obj *tokenContent) IsValid() bool {
	must := obj.must.Matches()
	if obj.HasNot() && obj.Not().Matches().IsValid() {
		// the block that discovers the most wins:
		if !must.IsValid() || len(obj.Not().Matches().Discoveries()) >= len(must.Discoveries()) {
			return false
		}
	}

	return must.IsValid()""")],
 "a token whose not block matches less text than its mandatory lines","tokens are accepted although a line of their not block matches",
'''package main

func main() {
	g := grammar{root: "root", rules: "A: \\"a\\";\\nB: \\"b\\";\\n", tokens: "root : t B\\n ;\\nt : A{1,}\\n --- : A B\\n ;\\n"}
	lex(g, "aab", "root0(t0('aa')'b')")
	lex(g, "ab", "mistake")
	g.tokens = "root : t? A{1,}\\n ;\\nt : A{3}\\n --- : A A\\n ;\\n"
	lex(g, "aaaa", "root0('aaaa')")
}
''')
make("X02-last-pattern-wins","X03",[(C+"patterns/adapter.go","""		if disIndex < index {""","""		if disIndex <= index {""")],
 "a rule with several patterns that match different texts at the same place","the last of the patterns that apply is used instead of the first one",
'''package main

func main() {
	g := grammar{root: "root", patterns: "pa: S_A;\\npb: S_B;\\n\\nS_A: $G_A;\\nS_B: $G_B;\\n\\n$G_A: \\"a\\";\\n$G_B: \\"ab,b\\";\\n", rules: "R: [pa pb]{1};\\nB: \\"b\\";\\n", tokens: "root : R{1} B\\n ;\\n"}
	lex(g, "ab", "root0('a''b')")
	lex(g, "bb", "root0('b''b')")
}
''')
make("X07-recursion-reactivates-channels","X07",[(T+"adapter.go","""		tokenMatch, err := app.tokenToTokenMatch(token, dependencies, script, chansAreActivated)
		if err != nil {
			return nil, err
		}

		// if the token invalid, but""","""		tokenMatch, err := app.tokenToTokenMatch(token, dependencies, script, true)
		if err != nil {
			return nil, err
		}

		// if the token invalid, but""")],
 "a recursive reference that is written after a channel switch","the channels are active inside of recursive tokens although a switch turned them off",
'''package main

func main() {
	g := grammar{root: "root", rules: "A: \\"a\\";\\nB: \\"b\\";\\nS: \\" \\";\\n", tokens: "root : # t B\\n ;\\nt : A t\\n | A\\n ;\\n", channels: "sp : S\\n ;\\n"}
	lex(g, "aab", "root0(t0('a't1('a'))'b')")
	lex(g, "a ab", "mistake")
}
''')
