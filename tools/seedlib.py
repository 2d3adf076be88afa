PRE='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n%s)\n\nfunc fail(f string, a ...any) { fmt.Printf("FAIL "+f+"\\n", a...); os.Exit(1) }\n\n'
def M(imports, body, extra=''): return PRE % ''.join('\t%s\n' % i for i in imports) + 'func main() {\n' + body + '\n}\n' + extra
