package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"

	lexers "github.com/steve-care-software/steve/applications/languages/lexers"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	"github.com/steve-care-software/steve/domain/languages/lexers/contents"
	"github.com/steve-care-software/steve/domain/languages/lexers/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/containers"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/multiples"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/singles"
)

type grammar struct {
	root, patterns, rules, tokens, channels string
	files                                   map[string]string
}

func tree(token asts.Token) string {
	out := fmt.Sprintf("%s%d(", token.Name(), token.Match().Index())
	for _, one := range token.Match().Matches() {
		if one.IsToken() {
			for _, tok := range one.Token().Matches() {
				out += tree(tok)
			}

			continue
		}

		out += "'" + one.Rule().Result().Discoveries().Content() + "'"
	}

	return out + ")"
}

func newApplication(g grammar) lexers.Application {
	dir, err := ioutil.TempDir("", "demo")
	check(err)
	for name, content := range g.files {
		check(os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0700))
		check(ioutil.WriteFile(filepath.Join(dir, name), []byte(content), 0600))
	}

	path, err := paths.NewBuilder().Create().WithRules(dir).WithTokens(dir).WithChannels(dir).Now()
	check(err)
	app, err := lexers.NewBuilder().Create().WithBasePaths(path).Now()
	check(err)
	return app
}

func newSingle(g grammar) singles.Single {
	if g.patterns == "" {
		g.patterns = "unused: UNUSED;\nUNUSED: $UNUSED;\n$UNUSED: \"zz\";\n"
	}

	container, err := containers.NewBuilder().Create().WithPatterns(g.patterns).WithRules(g.rules).WithTokens(g.tokens).Now()
	check(err)
	builder := multiples.NewBuilder().Create().WithContainer(container)
	if g.channels != "" {
		builder = builder.WithChannels(g.channels)
	}

	multiple, err := builder.Now()
	check(err)
	single, err := singles.NewBuilder().Create().WithRootToken(g.root).WithMultiple(multiple).Now()
	check(err)
	return single
}

func answer(app lexers.Application, g grammar, script string, prefix bool) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("panic: %v", r)
		}
	}()

	builder := contents.NewBuilder().Create().WithContent(script)
	if prefix {
		builder = builder.IsPrefixLegal()
	}

	content, err := builder.Now()
	check(err)
	ast, err := app.AST(newSingle(g), content)
	if err != nil {
		return "error"
	}

	if ast.IsMistake() {
		return "mistake"
	}

	return tree(ast.Success())
}

func check(err error) {
	if err != nil {
		fmt.Println("unexpected error:", err)
		os.Exit(2)
	}
}

func expect(what string, got string, want string) {
	if got != want {
		fmt.Printf("%s: got %s, want %s\n", what, got, want)
		os.Exit(1)
	}
}

func lex(g grammar, script string, want string) {
	expect(script, answer(newApplication(g), g, script, false), want)
}
