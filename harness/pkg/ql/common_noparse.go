package ql

import (
	"github.com/alecthomas/participle/v2"
	"github.com/alecthomas/participle/v2/lexer"
)

// the parser tables, built when the package is initialised, are not used by these harnesses

//sym:replace github.com/alecthomas/participle/v2.MustBuild
func symMustBuild(o ...participle.Option) *participle.Parser[Expression] { return nil }

//sym:replace github.com/alecthomas/participle/v2/lexer.MustSimple
func symMustSimple(r []lexer.SimpleRule) *lexer.StatefulDefinition { return nil }

//sym:replace github.com/alecthomas/participle/v2.Lexer
func symLexer(d lexer.Definition) participle.Option { return nil }

//sym:replace github.com/alecthomas/participle/v2.Unquote
func symUnquote(s ...string) participle.Option { return nil }

//sym:replace github.com/alecthomas/participle/v2.CaseInsensitive
func symCaseI(s ...string) participle.Option { return nil }

//sym:replace github.com/solarisdb/solaris/golibs/datetime.NewParser
func symNewParser(f ...string) any { return nil }
