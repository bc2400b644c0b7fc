package main

import (
	"encoding/json"

	"github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	"github.com/steve-care-software/steve/domain/languages/lexers/references/links"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/containers"
	resources_paths "github.com/steve-care-software/steve/domain/languages/lexers/resources/paths"
)

func init() {
	register("declared", opDeclared)
	register("links", opLinks)
}

type delimited interface {
	Delimiter() (uint, *uint)
}

// opDeclared says what the application finds in the files of a grammar: its tokens, and the path of its root
func opDeclared(raw json.RawMessage) (interface{}, error) {
	g := grammarFiles{}
	if err := json.Unmarshal(raw, &g); err != nil {
		return nil, err
	}

	dir, clean, err := scratch(g.Files)
	if err != nil {
		return nil, err
	}

	defer clean()
	app, err := newLexer(dir, g)
	if err != nil {
		return nil, err
	}

	container, err := containers.NewBuilder().Create().WithPatterns(g.Patterns).WithRules(g.Rules).WithTokens(g.Tokens).Now()
	if err != nil {
		return nil, err
	}

	out := object{"tokens": object{"v": "error"}, "path": object{"v": "error"}}
	declared, err := app.Tokens(container)
	if err == nil {
		list, found := []interface{}{}, []interface{}{}
		for _, one := range declared.All() {
			list = append(list, tokenObject(one))
			token, err := declared.Find(one.Name())
			if err != nil {
				return nil, err
			}

			found = append(found, token.Name())
		}

		_, missing := declared.Find("thisIsNotAToken")
		out["tokens"] = object{"v": "ok", "l": list, "f": found, "m": missing != nil}
	}

	resource, err := resources_paths.NewBuilder().Create().WithContainer(container).WithRootToken(g.Root).Now()
	if err != nil {
		return nil, err
	}

	path, err := app.Path(resource)
	if err == nil {
		elements := object{}
		for _, one := range path.Dependencies().All() {
			element, err := path.Dependencies().Fetch(one.Name())
			if err != nil {
				return nil, err
			}

			elements[one.Name()] = pathElement(element)
		}

		out["path"] = object{"v": "ok", "e": pathElement(path.Element()), "d": elements}
	}

	return out, nil
}

func bounded(fields object, card delimited) object {
	min, pMax := card.Delimiter()
	fields["min"], fields["max"] = min, -1
	if pMax != nil {
		fields["max"] = *pMax
	}

	return fields
}

func tokenObject(token tokens.Token) object {
	tests := []string{}
	if token.HasTestSuite() {
		tests = token.TestSuite().Lines()
	}

	not := []interface{}{}
	if token.Block().HasNot() {
		not = tokenLines(token.Block().Not())
	}

	return object{"n": token.Name(), "must": tokenLines(token.Block().Must()), "not": not, "tests": tests}
}

func tokenLines(lines tokens.Lines) []interface{} {
	out := []interface{}{}
	for _, line := range lines.All() {
		instructions := []interface{}{}
		for _, one := range line.Instructions() {
			if one.IsChannelSwitch() {
				instructions = append(instructions, object{"k": "sw"})
				continue
			}

			element := one.Element()
			fields := object{"n": element.Content().Name(), "min": 1, "max": 1}
			if element.HasCardinality() {
				fields = bounded(fields, element.Cardinality())
			}

			fields["k"] = "r"
			if element.Content().IsToken() {
				reference := element.Content().Token()
				specifiers := []interface{}{}
				if reference.HasSpecifiers() {
					for _, spec := range reference.Specifiers().All() {
						specifiers = append(specifiers, bounded(object{"n": spec.Content().Name()}, spec.Cardinality()))
					}
				}

				fields["k"], fields["sp"] = "t", specifiers
			}

			instructions = append(instructions, fields)
		}

		out = append(out, instructions)
	}

	return out
}

func pathElement(element paths.Element) object {
	not := []interface{}{}
	if element.HasNot() {
		not = pathLines(element.Not())
	}

	return object{"n": element.Name(), "must": pathLines(element.Must()), "not": not}
}

func pathLines(lines []paths.Line) []interface{} {
	out := []interface{}{}
	for _, line := range lines {
		instructions := []interface{}{}
		for _, one := range line.Instructions() {
			if one.IsChannelSwitch() {
				instructions = append(instructions, object{"k": "sw"})
				continue
			}

			container := one.Container()
			var card cardinality.Cardinality = container.Cardinality()
			fields := object{}
			if container.IsRule() {
				fields["k"], fields["n"] = "r", container.Rule().Base().Name()
			}

			if container.IsRecursive() {
				fields["k"], fields["n"] = "rec", container.Recursive().Name()
				fields["sp"] = pathSpecifiers(container.Recursive().HasSpecifiers(), container.Recursive().Specifiers())
			}

			if container.IsToken() {
				fields["k"], fields["e"] = "t", pathElement(container.Token().Path().Element())
				fields["sp"] = pathSpecifiers(container.Token().Path().HasSpecifiers(), container.Token().Path().Specifiers())
			}

			instructions = append(instructions, bounded(fields, card))
		}

		out = append(out, instructions)
	}

	return out
}

func pathSpecifiers(has bool, list []paths.Specifier) []interface{} {
	out := []interface{}{}
	if !has {
		return out
	}

	for _, one := range list {
		out = append(out, bounded(object{"n": one.ContainerName()}, one.Cardinality()))
	}

	return out
}

// opLinks says which references and replacements the application finds in a file of tokens
func opLinks(raw json.RawMessage) (interface{}, error) {
	text := ""
	if err := json.Unmarshal(raw, &text); err != nil {
		return nil, err
	}

	app, err := newLexer("", grammarFiles{Rbase: "a", Tbase: "b"})
	if err != nil {
		return nil, err
	}

	references, err := app.References(text)
	if err != nil {
		return object{"v": "error"}, nil
	}

	out := object{"v": "ok", "refs": []interface{}{}, "reps": []interface{}{}, "found": true}
	found := true
	list := func(all links.Links) []interface{} {
		objects := []interface{}{}
		for _, one := range all.All() {
			include := one.Include()
			objects = append(objects, object{"l": one.LocalToken(), "t": one.ReferenceToken(), "f": include.Name(), "r": include.Paths().Rules(), "k": include.Paths().Tokens()})
			local, err := all.FetchByLocalToken(one.LocalToken())
			found = found && err == nil && local.LocalToken() == one.LocalToken()
			reference, err := all.FetchByReferenceToken(include.Name(), one.ReferenceToken())
			found = found && err == nil && reference.ReferenceToken() == one.ReferenceToken() && reference.Include().Name() == include.Name()
		}

		_, err := all.FetchByLocalToken("thisIsNotAToken")
		found = found && err != nil
		_, err = all.FetchByReferenceToken("thisIsNotAnInclude", "thisIsNotAToken")
		found = found && err != nil
		return objects
	}

	if references.HasReferences() {
		out["refs"] = list(references.References())
	}

	if references.HasReplacements() {
		out["reps"] = list(references.Replacements())
	}

	out["found"] = found
	return out, nil
}
