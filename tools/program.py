def program(imports, body):
    head = "package main\n\nimport (\n" + "".join('\t%s\n' % (i if '"' in i else '"%s"' % i) for i in imports) + ")\n\n"
    return head + '''func check(err error) {
	if err != nil {
		fmt.Println("unexpected error:", err)
		os.Exit(2)
	}
}

func expect(what string, got interface{}, want interface{}) {
	if got != want {
		fmt.Printf("%s: got %v, want %v\\n", what, got, want)
		os.Exit(1)
	}
}
''' + body

