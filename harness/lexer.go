package main

import (
	"encoding/json"
	"errors"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"

	lexers "github.com/steve-care-software/steve/applications/languages/lexers"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts/mistakes"
	asts_paths "github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	"github.com/steve-care-software/steve/domain/languages/lexers/contents"
	"github.com/steve-care-software/steve/domain/languages/lexers/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/containers"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/multiples"
	resources_paths "github.com/steve-care-software/steve/domain/languages/lexers/resources/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/singles"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
)

func init() {
	register("lex", opLex)
	register("suites", opSuites)
}

// grammarFiles are the texts of a grammar
type grammarFiles struct {
	Root     string            `json:"root"`
	Patterns string            `json:"patterns"`
	Rules    string            `json:"rules"`
	Tokens   string            `json:"tokens"`
	Channels string            `json:"channels"`
	Files    map[string]string `json:"files"`
	Rbase    string            `json:"rbase"` // the folder of the rules that are included
	Tbase    string            `json:"tbase"` // the folder of the tokens that are included
	Given    *givenPaths       `json:"given"`
}

// givenPaths are the names that the application replaces by the root token of a grammar
type givenPaths struct {
	Names   []string     `json:"names"`
	Grammar grammarFiles `json:"grammar"`
}

// lexStep executes one script with one grammar
type lexStep struct {
	Grammar int    `json:"g"`
	Script  string `json:"s"`
	Prefix  bool   `json:"p"`
	Suffix  bool   `json:"x"`
	Root    bool   `json:"root"`
	Name    string `json:"name"` // replaces the root token of the grammar
}

type lexInput struct {
	Grammars []grammarFiles `json:"grammars"`
	Steps    []lexStep      `json:"steps"`
	Reuse    bool           `json:"reuse"`    // every step uses the same application
	Adapters bool           `json:"adapters"` // the steps of a grammar use the same adapter, without application
}

func scratch(files map[string]string) (string, func(), error) {
	dir, err := ioutil.TempDir("", "vh")
	if err != nil {
		return "", nil, err
	}

	for name, content := range files {
		full := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(full), 0700); err != nil {
			return "", nil, err
		}

		if err := ioutil.WriteFile(full, []byte(content), 0600); err != nil {
			return "", nil, err
		}
	}

	return dir, func() { os.RemoveAll(dir) }, nil
}

func newLexer(dir string, g grammarFiles) (lexers.Application, error) {
	path, err := paths.NewBuilder().Create().WithRules(filepath.Join(dir, g.Rbase)).WithTokens(filepath.Join(dir, g.Tbase)).WithChannels(dir).Now()
	if err != nil {
		return nil, err
	}

	builder := lexers.NewBuilder().Create().WithBasePaths(path)
	if g.Given == nil {
		return builder.Now()
	}

	other, err := newLexer(dir, g.Given.Grammar)
	if err != nil {
		return nil, err
	}

	container, err := containers.NewBuilder().Create().WithPatterns(g.Given.Grammar.Patterns).WithRules(g.Given.Grammar.Rules).WithTokens(g.Given.Grammar.Tokens).Now()
	if err != nil {
		return nil, err
	}

	resource, err := resources_paths.NewBuilder().Create().WithContainer(container).WithRootToken(g.Given.Grammar.Root).Now()
	if err != nil {
		return nil, err
	}

	given := map[string]asts_paths.Path{}
	for _, name := range g.Given.Names {
		given[name], err = other.Path(resource)
		if err != nil {
			return nil, err
		}
	}

	return builder.WithReplacementPaths(given).Now()
}

func newMultiple(g grammarFiles) (multiples.Multiple, error) {
	container, err := containers.NewBuilder().Create().WithPatterns(g.Patterns).WithRules(g.Rules).WithTokens(g.Tokens).Now()
	if err != nil {
		return nil, err
	}

	builder := multiples.NewBuilder().Create().WithContainer(container)
	if g.Channels != "" {
		builder = builder.WithChannels(g.Channels)
	}

	return builder.Now()
}

func newSingle(g grammarFiles, root string) (singles.Single, error) {
	multiple, err := newMultiple(g)
	if err != nil {
		return nil, err
	}

	return singles.NewBuilder().Create().WithRootToken(root).WithMultiple(multiple).Now()
}

func newContent(step lexStep) (contents.Content, error) {
	builder := contents.NewBuilder().Create().WithContent(step.Script)
	if step.Prefix {
		builder = builder.IsPrefixLegal()
	}

	if step.Suffix {
		builder = builder.IsSuffixLegal()
	}

	return builder.Now()
}

func opLex(raw json.RawMessage) (interface{}, error) {
	in := lexInput{}
	if err := json.Unmarshal(raw, &in); err != nil {
		return nil, err
	}

	files := map[string]string{}
	for _, g := range in.Grammars {
		for name, content := range g.Files {
			files[name] = content
		}
	}

	dir, clean, err := scratch(files)
	if err != nil {
		return nil, err
	}
	defer clean()

	var app lexers.Application
	out := []interface{}{}
	if in.Adapters {
		factory := newAdapters()
		for _, step := range in.Steps {
			out = append(out, factory.once(in.Grammars[step.Grammar], step))
		}

		return out, nil
	}

	for _, step := range in.Steps {
		if app == nil || !in.Reuse {
			created, err := newLexer(dir, in.Grammars[0])
			if err != nil {
				return nil, err
			}

			app = created
		}

		out = append(out, lexOnce(app, in.Grammars[step.Grammar], step))
	}

	return out, nil
}

func failure(stage string, err error) object {
	return object{"v": "error", "stage": stage, "msg": err.Error()}
}

func lexOnce(app lexers.Application, g grammarFiles, step lexStep) object {
	root := g.Root
	if step.Name != "" {
		root = step.Name
	}

	single, err := newSingle(g, root)
	if err != nil {
		return failure("resource", err)
	}

	content, err := newContent(step)
	if err != nil {
		return failure("content", err)
	}

	if step.Root {
		ins, mistake, err := app.Root(single, content)
		if err != nil {
			return failure("root", err)
		}

		if mistake != nil {
			out := mistakeObject(mistake)
			if ins != nil {
				out["both"] = true
			}

			return out
		}

		if ins == nil {
			return object{"v": "nothing"}
		}

		return object{"v": "ok", "d": ins.Content(), "root": rootObject(ins), "scan": scanObject(ins), "subs": subObjects(ins, 5)}
	}

	ast, err := app.AST(single, content)
	if err != nil {
		return failure("ast", err)
	}

	return astOutcome(ast)
}

func astOutcome(ast asts.AST) object {
	if ast.IsMistake() == ast.IsSuccess() {
		return object{"v": "nothing"}
	}

	if ast.IsMistake() {
		return mistakeObject(ast.Mistake())
	}

	return object{"v": "ok", "d": ast.Success().Discovery(), "t": astObject(ast.Success())}
}

// adapters keeps the adapters of the grammars that it has seen
type adapters struct {
	patterns patterns.Adapter
	rules    rules.Adapter
	tokens   tokens.AdapterBuilder
	asts     asts.AdapterBuilder
	made     map[string]asts.Adapter
}

func newAdapters() *adapters {
	return &adapters{
		patterns: patterns.NewAdapter(),
		rules:    rules.NewAdapter(),
		tokens:   tokens.NewAdapterBuilder(),
		asts:     asts.NewAdapterBuilder(),
		made:     map[string]asts.Adapter{},
	}
}

func (obj *adapters) make(g grammarFiles, step lexStep) (asts.Adapter, error) {
	patterns, err := obj.patterns.ToPatterns(g.Patterns)
	if err != nil {
		return nil, err
	}

	rules, err := obj.rules.Rules(g.Rules, patterns)
	if err != nil {
		return nil, err
	}

	adapter, err := obj.tokens.Create().WithRules(rules).Now()
	if err != nil {
		return nil, err
	}

	list, err := adapter.ToTokens(g.Tokens)
	if err != nil {
		return nil, err
	}

	name := g.Root
	if step.Name != "" {
		name = step.Name
	}

	root, err := list.Find(name)
	if err != nil {
		return nil, err
	}

	builder := obj.asts.Create().WithRoot(root).WithTokens(list)
	if g.Channels != "" {
		channels, err := adapter.ToTokens(g.Channels)
		if err != nil {
			return nil, err
		}

		builder.WithChannels(channels)
	}

	if step.Prefix {
		builder.CanContainPrefix()
	}

	if step.Suffix {
		builder.CanContainSuffix()
	}

	return builder.Now()
}

func (obj *adapters) once(g grammarFiles, step lexStep) object {
	key, err := json.Marshal([]interface{}{g, step.Name, step.Prefix, step.Suffix})
	if err != nil {
		return failure("key", err)
	}

	if _, ok := obj.made[string(key)]; !ok {
		made, err := obj.make(g, step)
		if err != nil {
			return failure("adapter", err)
		}

		obj.made[string(key)] = made
	}

	ast, err := obj.made[string(key)].ToAST(step.Script)
	if err != nil {
		return failure("ast", err)
	}

	return astOutcome(ast)
}

func mistakeObject(mistake mistakes.Mistake) object {
	content := mistake.Content()
	kinds := []string{}
	if content.IsTokenHasNoMatch() {
		kinds = append(kinds, "noMatch")
	}

	if content.IsContainsValidNotMatch() {
		kinds = append(kinds, "not")
	}

	if content.IsSpecifierDoNotMatch() {
		kinds = append(kinds, "specifier")
	}

	if content.IsContainsNextElement() {
		kinds = append(kinds, "next")
	}

	if content.IsCardinalityIsInvalid() {
		kinds = append(kinds, "cardinality")
	}

	if content.IsContainsPrefix() {
		kinds = append(kinds, "prefix")
	}

	index := mistake.Index()
	path := mistake.Path()
	parents := []string{}
	if path.HasParents() {
		parents = path.Parents()
	}

	container := object{}
	if path.Container().IsRule() {
		container["rule"] = path.Container().Rule()
	}

	if path.Container().IsToken() {
		container["token"] = path.Container().Token()
	}

	detail := object{}
	if content.IsContainsValidNotMatch() {
		detail["line"] = content.ContainsValidNotMatch().Line()
	}

	if content.IsSpecifierDoNotMatch() {
		specifier := content.SpecifierDoNotMatch()
		detail["name"] = specifier.ContainerName()
		detail["amount"] = specifier.Amount()
		min, max := specifier.Cardinality().Delimiter()
		detail["min"], detail["max"] = min, max
	}

	if content.IsCardinalityIsInvalid() {
		detail["amount"] = content.CardinalityIsInvalid().Amount()
		min, max := content.CardinalityIsInvalid().Cardinality().Delimiter()
		detail["min"], detail["max"] = min, max
	}

	if content.IsContainsPrefix() {
		detail["prefix"] = content.ContainsPrefix().Prefix()
	}

	if content.IsContainsNextElement() {
		next := content.ContainsNextElement().NextElement()
		if next.IsConstant() {
			detail["constant"] = next.Constant()
		} else {
			detail["pattern"] = next.Pattern().Name()
		}
	}

	return object{"v": "mistake", "kinds": kinds, "index": index.Index(), "line": index.Line(), "column": index.Column(),
		"parents": parents, "container": container, "detail": detail}
}

func astObject(token asts.Token) object {
	matches := []interface{}{}
	for _, one := range token.Match().Matches() {
		if one.IsToken() {
			tokens := []interface{}{}
			for _, tok := range one.Token().Matches() {
				tokens = append(tokens, astObject(tok))
			}

			matches = append(matches, object{"t": one.Token().Token(), "m": tokens})
			continue
		}

		matches = append(matches, object{"r": one.Rule().Rule(), "c": one.Rule().Result().Discoveries().Content()})
	}

	return object{"n": token.Name(), "l": token.Match().Index(), "m": matches}
}

func containerObject(c roots.Container) object {
	out := object{"n": c.Name(), "c": c.Content()}
	if c.HasRoot() {
		out["root"] = rootObject(c.Root())
	}

	return out
}

// subObjects searches in the trees of the containers as well
func subObjects(root roots.Root, limit int) []interface{} {
	out := []interface{}{}
	list := []string{}
	for name := range root.Nodes().All() {
		list = append(list, name)
	}

	sort.Strings(list)
	for _, name := range list {
		for _, one := range root.Nodes().All()[name].Containers().List() {
			if one.HasRoot() && len(out) < limit {
				out = append(out, object{"root": rootObject(one.Root()), "scan": scanObject(one.Root())})
				out = append(out, subObjects(one.Root(), limit-len(out))...)
			}
		}
	}

	return out
}

func rootObject(root roots.Root) object {
	nodes := object{}
	all := root.Nodes()
	_, err := all.Fetch("unknownName")
	if err == nil || all.Exists("unknownName") || int(all.Amount()) != len(all.All()) {
		nodes["the nodes do not know their names"] = all.Amount()
	}

	for name, node := range root.Nodes().All() {
		same, err := all.Fetch(name)
		if err != nil || same != node || !all.Exists(name) {
			nodes["another node is fetched for "+name] = name
		}

		list := []interface{}{}
		for _, one := range node.Containers().List() {
			list = append(list, containerObject(one))
		}

		nodes[name] = object{"n": node.Name(), "c": node.Content(), "l": list}
	}

	return object{"n": root.Name(), "c": root.Content(), "nodes": nodes}
}

func names(root roots.Root, into map[string]bool) {
	into[root.Name()] = true
	for name, node := range root.Nodes().All() {
		into[name] = true
		for _, one := range node.Containers().List() {
			into[one.Name()] = true
			if one.HasRoot() {
				names(one.Root(), into)
			}
		}
	}
}

// scanObject scans every name of the tree (and one unknown name) from the root
func scanObject(root roots.Root) object {
	found := map[string]bool{"unknownName": true}
	names(root, found)
	list := []string{}
	for name := range found {
		list = append(list, name)
	}

	sort.Strings(list)
	out := object{}
	for _, name := range list {
		out[name] = scanOnce(root, name)
	}

	return out
}

func scanOnce(root roots.Root, name string) object {
	r, n, c, content, err := root.Scan(name)
	if err != nil {
		return object{"k": "error"}
	}

	if r != nil {
		return object{"k": "root", "n": r.Name(), "c": r.Content(), "content": content}
	}

	if n != nil {
		return object{"k": "node", "n": n.Name(), "c": n.Content(), "content": content}
	}

	if c != nil {
		return object{"k": "container", "n": c.Name(), "c": c.Content(), "content": content}
	}

	return object{"k": "nothing", "content": content}
}

func opSuites(raw json.RawMessage) (interface{}, error) {
	g := grammarFiles{}
	if err := json.Unmarshal(raw, &g); err != nil {
		return nil, err
	}

	dir, clean, err := scratch(g.Files)
	if err != nil {
		return nil, err
	}
	defer clean()

	app, err := newLexer(dir, g)
	if err != nil {
		return nil, err
	}

	multiple, err := newMultiple(g)
	if err != nil {
		return failure("resource", err), nil
	}

	list, err := app.Tests(multiple)
	if err != nil {
		return failure("suites", err), nil
	}

	out := []interface{}{}
	for _, suite := range list {
		lines := []interface{}{}
		for _, line := range suite.Lines() {
			lines = append(lines, object{"i": line.Index(), "ok": line.IsSuccess()})
		}

		out = append(out, object{"n": suite.Name(), "l": lines})
	}

	return object{"v": "ok", "suites": out}, nil
}

var errNotExpected = errors.New("not expected")

func init() {
	register("card", opCard)
}

// opCard reads texts of cardinalities, and reads what is written back
func opCard(raw json.RawMessage) (interface{}, error) {
	texts := []struct {
		Text    string `json:"t"`
		Amounts []uint `json:"at"`
	}{}
	if err := json.Unmarshal(raw, &texts); err != nil {
		return nil, err
	}

	adapter := cardinality.NewAdapter()
	out := []interface{}{}
	for _, one := range texts {
		amounts := one.Amounts
		ins, err := adapter.ToCardinality(one.Text)
		if err != nil {
			out = append(out, object{"k": "bad"})
			continue
		}

		one := cardObject(ins, amounts)
		written, err := adapter.ToPatternString(ins)
		if err != nil {
			one["again"] = "error"
			out = append(out, one)
			continue
		}

		again, err := adapter.ToCardinality(written)
		if err != nil {
			one["again"] = "error"
		} else {
			one["again"] = cardObject(again, amounts)
		}

		out = append(out, one)
	}

	return out, nil
}

func cardObject(ins cardinality.Cardinality, amounts []uint) object {
	min, max := ins.Delimiter()
	out := object{"k": "card", "min": min, "max": -1}
	if max != nil {
		out["max"] = *max
	}

	accepts := []bool{}
	for _, i := range amounts {
		accepts = append(accepts, ins.IsValid(i))
	}

	out["accepts"] = accepts
	return out
}
