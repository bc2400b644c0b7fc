package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"

	"github.com/steve-care-software/steve/applications/languages/parsers"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
)

func init() {
	register("parse", opParse)
}

// parseEvent is an event of a little language of events
type parseEvent struct {
	Kind   string `json:"k"`
	A      string `json:"a"`
	B      string `json:"b"`
	Unless string `json:"unless"` // the event fails when the content of its root starts with this
}

type parseInput struct {
	Grammar grammarFiles              `json:"grammar"`
	Script  string                    `json:"s"`
	Events  []map[string][]parseEvent `json:"events"`
}

type recorder struct {
	calls []string
}

func (app *recorder) event(name string, index int, ev parseEvent) parsers.EventFunc {
	return func(root roots.Root, manager parsers.Manager) (interface{}, error) {
		if len(app.calls) > 400 {
			panic(errTooManyCalls)
		}

		content := root.Content()
		app.calls = append(app.calls, fmt.Sprintf("%s.%d:%s", name, index, content))
		if ev.Unless != "" && len(content) > 0 && content[:1] == ev.Unless {
			return nil, errNotExpected
		}

		switch ev.Kind {
		case "fail":
			return nil, errNotExpected
		case "text":
			return content, nil
		case "label":
			return ev.A, nil
		case "nil":
			return nil, nil
		case "trigger":
			ins, err := manager.Trigger(ev.A, root)
			if err != nil {
				return nil, err
			}

			return ins, nil
		case "first":
			ins, err := manager.Trigger(ev.A, root)
			if err != nil {
				return nil, err
			}

			return ins.First(), nil
		case "list":
			ins, err := manager.Trigger(ev.A, root)
			if err != nil {
				return nil, err
			}

			return ins.List(), nil
		case "single":
			ins, err := manager.Trigger(ev.A, root)
			if err != nil {
				return nil, err
			}

			return ins.IsSingle(), nil
		case "pair":
			first, err := manager.Trigger(ev.A, root)
			if err != nil {
				return nil, err
			}

			second, err := manager.Trigger(ev.B, root)
			if err != nil {
				return nil, err
			}

			return [2]interface{}{first.First(), second.First()}, nil
		case "either":
			ins, err := manager.Trigger(ev.A, root)
			if err == nil {
				return ins, nil
			}

			ins, err = manager.Trigger(ev.B, root)
			if err != nil {
				return nil, err
			}

			return ins, nil
		}

		panic("unknown event")
	}
}

var errTooManyCalls = errors.New("too many calls")

func parseValue(value interface{}) object {
	switch one := value.(type) {
	case nil:
		return object{"k": "nil"}
	case string:
		return object{"k": "text", "v": one}
	case bool:
		return object{"k": "bool", "v": one}
	case [2]interface{}:
		return object{"k": "pair", "a": parseValue(one[0]), "b": parseValue(one[1])}
	case []interface{}:
		list := []interface{}{}
		for _, sub := range one {
			list = append(list, parseValue(sub))
		}

		return object{"k": "list", "l": list}
	}

	return object{"k": fmt.Sprintf("%T", value)}
}

func parseResult(ins parsers.Result, err error) object {
	if err != nil {
		return object{"k": "error"}
	}

	if ins == nil {
		return object{"k": "nothing"}
	}

	return object{"k": "result", "first": parseValue(ins.First()), "list": parseValue(ins.List()), "single": ins.IsSingle()}
}

func (app *recorder) observe(fn func() object) (out object) {
	app.calls = []string{}
	defer func() {
		if r := recover(); r != nil {
			if r != interface{}(errTooManyCalls) {
				panic(r)
			}

			out = object{"k": "many"}
		}

		out["calls"] = app.calls
	}()

	return fn()
}

func opParse(raw json.RawMessage) (interface{}, error) {
	in := parseInput{}
	if err := json.Unmarshal(raw, &in); err != nil {
		return nil, err
	}

	dir, clean, err := scratch(in.Grammar.Files)
	if err != nil {
		return nil, err
	}
	defer clean()

	lexer, err := newLexer(dir, in.Grammar)
	if err != nil {
		return nil, err
	}

	single, err := newSingle(in.Grammar, in.Grammar.Root)
	if err != nil {
		return failure("resource", err), nil
	}

	content, err := newContent(lexStep{Script: in.Script})
	if err != nil {
		return failure("content", err), nil
	}

	root, mistake, err := lexer.Root(single, content)
	if err != nil {
		return failure("root", err), nil
	}

	if mistake != nil {
		return mistakeObject(mistake), nil
	}

	found := map[string]bool{"unknownName": true}
	names(root, found)
	list := []string{}
	for name := range found {
		list = append(list, name)
	}

	sort.Strings(list)
	application := parsers.NewApplication()
	runs := []interface{}{}
	for _, events := range in.Events {
		rec := &recorder{}
		funcs := map[string][]parsers.EventFunc{}
		for name, evs := range events {
			funcs[name] = []parsers.EventFunc{}
			for i, ev := range evs {
				funcs[name] = append(funcs[name], rec.event(name, i, ev))
			}
		}

		run := object{"v": "ok"}
		run["instance"] = rec.observe(func() object {
			ins, err := application.Execute(root, funcs)
			if err != nil {
				return object{"k": "error"}
			}

			return object{"k": "value", "first": parseValue(ins)}
		})

		manager, err := parsers.NewManagerBuilder().Create().WithEvents(funcs).Now()
		if err != nil {
			runs = append(runs, object{"v": "none", "instance": run["instance"]})
			continue
		}

		run["execute"] = rec.observe(func() object {
			return parseResult(manager.Execute(root))
		})

		triggers := object{}
		for _, name := range list {
			one := name
			triggers[one] = rec.observe(func() object {
				return parseResult(manager.Trigger(one, root))
			})
		}

		run["triggers"] = triggers
		run["again"] = rec.observe(func() object {
			return parseResult(manager.Execute(root))
		})
		runs = append(runs, run)
	}

	return object{"v": "ok", "root": rootObject(root), "runs": runs}, nil
}
