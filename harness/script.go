package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"

	lexers "github.com/steve-care-software/steve/applications/languages/lexers"
	"github.com/steve-care-software/steve/applications/languages/parsers"
	"github.com/steve-care-software/steve/domain/languages/lexers/contents"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/singles"
	"github.com/steve-care-software/steve/domain/languages/scripts"
	base "github.com/steve-care-software/steve/domain/languages/scripts/base/parsers"
)

func init() {
	register("script", opScript)
}

type scriptInput struct {
	Dir     string   `json:"dir"` // the resources of the languages
	Root    string   `json:"root"`
	Bits    uint     `json:"bits"`
	Scripts []string `json:"scripts"`
}

// kind names the only one of the kinds that is on, and every one of them otherwise
func kind(pairs ...interface{}) string {
	on := []string{}
	for i := 0; i < len(pairs); i += 2 {
		if pairs[i+1].(bool) {
			on = append(on, pairs[i].(string))
		}
	}

	return strings.Join(on, "+")
}

var flagNames = []string{"unsigned", "integer", "float", "string", "bool"}

func typeObject(ins base.Type) object {
	flags := []string{}
	for i, name := range flagNames {
		if ins.Flag()&(1<<uint(i)) != 0 {
			flags = append(flags, name)
		}
	}

	return object{"depth": ins.Dept(), "flags": strings.Join(flags, "+")}
}

func valueObject(ins base.Value) object {
	return object{"type": typeObject(ins.Type()), "v": fmt.Sprintf("%T %v", ins.Element(), ins.Element())}
}

func declarationObject(ins base.VariableDeclaration) object {
	return object{"type": typeObject(ins.Type()), "name": ins.Name()}
}

func programObject(ins base.Program) object {
	out := object{"has": ins.HasVariables(), "vars": []interface{}{}, "ins": instructionsObject(ins.Instructions())}
	if ins.HasVariables() {
		list := []interface{}{}
		for _, one := range ins.Variables().All() {
			list = append(list, object{"in": one.IsInput(), "must": one.IsMandatory(), "decl": declarationObject(one.Declaration()), "key": one.Keyname()})
		}

		out["vars"] = list
	}

	return out
}

func instructionsObject(ins base.Instructions) []interface{} {
	list := []interface{}{}
	for _, one := range ins.All() {
		list = append(list, instructionObject(one))
	}

	return list
}

func instructionObject(ins base.Instruction) object {
	k := kind("assign", ins.IsAssignment(), "declare", ins.IsVariableDeclaration(), "if", ins.IsIfDeclaration(), "for", ins.IsForDeclaration(),
		"call", ins.IsFuncCall(), "go", ins.IsDirection(), "incr", ins.IsIntIncrement())
	out := object{"k": k}
	switch k {
	case "assign":
		one := ins.Assignment()
		out["to"] = assigneeObject(one.Assignee())
		out["of"] = assignablesObject(one.Assignables())
	case "declare":
		out["decl"] = declarationObject(ins.VariableDeclaration())
	case "if":
		one := ins.IfDeclaration()
		out["cond"] = operationObject(one.Condition())
		out["has"] = one.HasInstructions()
		out["ins"] = []interface{}{}
		if one.HasInstructions() {
			out["ins"] = instructionsObject(one.Instructions())
		}
	case "for":
		one := ins.ForDeclaration()
		st := one.Statement()
		out["index"] = assigneeNameObject(st.Index())
		out["value"] = assigneeNameObject(st.Value())
		out["over"] = totalValueObject(st.Iterable())
		out["has"] = one.HasInstructions()
		out["ins"] = []interface{}{}
		if one.HasInstructions() {
			out["ins"] = instructionsObject(one.Instructions())
		}
	case "call":
		one := ins.FuncCall()
		out["k"] = "call" + kind("log", one.IsLog())
		out["of"] = assignableObject(one.Log())
	case "go":
		out["to"] = kind("break", ins.Direction().IsBreak(), "continue", ins.Direction().IsContinue())
	case "incr":
		out["name"] = ins.IntIncrement().VariableName()
		out["by"] = valueObject(ins.IntIncrement().Increment())
	}

	return out
}

func assigneeNameObject(ins base.AssigneeName) object {
	k := kind("skip", ins.IsSkip(), "var", ins.IsVariable())
	out := object{"k": k}
	if k == "var" {
		out["name"] = ins.Variable()
	}

	return out
}

func assigneeObject(ins base.Assignee) object {
	k := kind("first", ins.IsFirst(), "name", ins.IsName())
	list := []interface{}{}
	switch k {
	case "first":
		for _, one := range ins.First().All() {
			sub := kind("declare", one.IsDeclaration(), "name", one.IsAssigneeName())
			switch sub {
			case "declare":
				list = append(list, object{"k": "declare", "decl": declarationObject(one.Declaration())})
			case "name":
				list = append(list, assigneeNameObject(one.AssigneeName()))
			default:
				list = append(list, object{"k": sub})
			}
		}
	case "name":
		for _, one := range ins.Name().All() {
			list = append(list, assigneeNameObject(one))
		}
	}

	return object{"k": k, "names": list}
}

func assignablesObject(ins base.Assignables) []interface{} {
	list := []interface{}{}
	for _, one := range ins.All() {
		list = append(list, assignableObject(one))
	}

	if ins.IsEmpty() != (len(list) == 0) {
		list = append(list, "isEmpty is wrong")
	}

	return list
}

func assignableObject(ins base.Assignable) object {
	k := kind("list", ins.IsList(), "single", ins.IsSingle())
	switch k {
	case "list":
		return totalObject(ins.List())
	case "single":
		return singleObject(ins.Single())
	}

	return object{"k": "assignable:" + k}
}

func singleObject(ins base.SingleAssignable) object {
	k := kind("value", ins.IsDeclarableValue(), "operation", ins.IsOperation(), "extract", ins.IsExtract(), "fetch", ins.IsListFetchElement())
	out := object{"k": k}
	switch k {
	case "value":
		out["v"] = valueObject(ins.DeclarableValue())
	case "operation":
		out["o"] = operationObject(ins.Operation())
	case "extract":
		out["l"] = totalObject(ins.Extract())
	case "fetch":
		out["l"] = totalValueObject(ins.ListFetchElement().List())
		out["i"] = indexObject(ins.ListFetchElement().Index())
	}

	return out
}

func totalValueObject(ins base.TotalListValue) object {
	k := kind("assignable", ins.IsAssignable(), "var", ins.IsVariableName())
	switch k {
	case "assignable":
		return totalObject(ins.Assignable())
	case "var":
		return object{"k": "var", "name": ins.VariableName()}
	}

	return object{"k": "total:" + k}
}

func totalObject(ins base.TotalListAssignable) object {
	k := kind("list", ins.IsListValue(), "slice", ins.IsSlice(), "append", ins.IsAppend())
	switch k {
	case "list":
		return object{"k": "list", "l": listObject(ins.ListValue())}
	case "slice":
		by := ins.Slice().Delimiter()
		out := object{"k": "slice", "l": listObject(ins.Slice().List()), "from": indexObject(by.Index()), "has": by.HasAmount()}
		if by.HasAmount() {
			out["to"] = indexObject(by.Amount())
		}

		return out
	case "append":
		return object{"k": "append", "l": listObject(ins.Append().List()), "e": singleObject(ins.Append().Assignable())}
	}

	return object{"k": "totalList:" + k}
}

func listObject(ins base.ListValue) object {
	k := kind("of", ins.IsAssignables(), "var", ins.IsVariableName())
	switch k {
	case "of":
		return object{"k": "of", "l": assignablesObject(ins.Assignables())}
	case "var":
		return object{"k": "var", "name": ins.VariableName()}
	}

	return object{"k": "list:" + k}
}

func indexObject(ins base.IndexValue) object {
	k := kind("value", ins.IsValue(), "var", ins.IsVariableName())
	switch k {
	case "value":
		return object{"k": "value", "v": valueObject(ins.Value())}
	case "var":
		return object{"k": "var", "name": ins.VariableName()}
	}

	return object{"k": "index:" + k}
}

var operatorNames = []string{"arithmetic", "+", "-", "*", "/", "logical", "&&", "||", "relational", "not", "equal", "less", "greater"}

func operationObject(ins base.Operation) object {
	out := object{"a": elementObject(ins.Element()), "has": ins.HasSuffix()}
	if ins.HasSuffix() {
		flags := []string{}
		for i, name := range operatorNames {
			if ins.Suffix().Operator()&(1<<uint(i)) != 0 {
				flags = append(flags, name)
			}
		}

		if ins.Suffix().Operator() >= 1<<uint(len(operatorNames)) {
			flags = append(flags, "unknown")
		}

		out["op"] = strings.Join(flags, " ")
		out["b"] = elementObject(ins.Suffix().Element())
	}

	return out
}

func elementObject(ins base.OperationElement) object {
	k := kind("bool", ins.IsBoolValue(), "var", ins.IsVariableName(), "value", ins.IsComputableValue(), "operation", ins.IsOperation(), "call", ins.IsFuncCall())
	out := object{"k": k}
	switch k {
	case "bool":
		out["v"] = *ins.BoolValue()
	case "var":
		out["name"] = *ins.VariableName()
	case "value":
		out["v"] = valueObject(ins.ComputableValue())
	case "operation":
		out["o"] = operationObject(ins.Operation())
	case "call":
		out["k"] = "call" + kind("Null", ins.FuncCall().IsNull())
		out["o"] = operationObject(ins.FuncCall().Null())
	}

	return out
}

func instanceObject(ins interface{}) interface{} {
	switch one := ins.(type) {
	case base.Program:
		return programObject(one)
	case base.Instructions:
		return instructionsObject(one)
	case base.Instruction:
		return instructionObject(one)
	case base.Assignables:
		return assignablesObject(one)
	case base.Assignable:
		return assignableObject(one)
	case base.Operation:
		return operationObject(one)
	}

	return fmt.Sprintf("%T", ins)
}

func opScript(raw json.RawMessage) (interface{}, error) {
	in := scriptInput{}
	if err := json.Unmarshal(raw, &in); err != nil {
		return nil, err
	}

	lexer, resource := scriptLexer(in.Dir, in.Root)
	app := parsers.NewApplication()
	out := []interface{}{}
	for _, script := range in.Scripts {
		content, err := contents.NewBuilder().Create().WithContent(script).Now()
		if err != nil {
			out = append(out, failure("content", err))
			continue
		}

		root, mistake, err := lexer.Root(resource, content)
		if err != nil {
			out = append(out, failure("root", err))
			continue
		}

		if mistake != nil {
			out = append(out, mistakeObject(mistake))
			continue
		}

		ins, err := app.Execute(root, base.NewEvents(in.Bits))
		if err != nil {
			out = append(out, object{"v": "refused", "d": root.Content(), "msg": err.Error()})
			continue
		}

		out = append(out, object{"v": "ok", "d": root.Content(), "ins": instanceObject(ins)})
	}

	return out, nil
}

func scriptLexer(dir string, root string) (lexers.Application, singles.Single) {
	full := filepath.Clean(dir)
	return lexers.NewLexerForTests(full, full, full), scripts.NewSingleResourceForTests(root, full, "base")
}
